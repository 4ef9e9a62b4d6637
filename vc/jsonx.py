from fractions import Fraction


def enc(x):
    if isinstance(x, Fraction):
        return {'__frac__': [x.numerator, x.denominator]}
    if isinstance(x, (list,)):
        return [enc(y) for y in x]
    if isinstance(x, tuple):
        return {'__tuple__': [enc(y) for y in x]}
    if isinstance(x, (set, frozenset)):
        return {'__set__': sorted((enc(y) for y in x), key=repr)}
    if isinstance(x, dict):
        return {'__dict__': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return {'__repr__': repr(x)[:500]}


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if '__frac__' in x:
            return Fraction(*x['__frac__'])
        if '__tuple__' in x:
            return tuple(dec(y) for y in x['__tuple__'])
        if '__set__' in x:
            return set(dec(y) for y in x['__set__'])
        if '__dict__' in x:
            return {dec(k): dec(v) for k, v in x['__dict__']}
        if '__repr__' in x:
            return x['__repr__']
        return {k: dec(v) for k, v in x.items()}
    return x
