"""The algebra as an arbitrary relation on texts: one Boolean solver variable per pair of texts it is asked about."""
from symx.values import SymBool


class AnyRel:
    def __init__(self, known=None):
        self.known = {} if known is None else known     # replay: 'a|b' -> verdict
        self.replay = known is not None

    def __call__(self, gt, gv, verbose=False):
        return self.at(gt, gv)

    def at(self, gt, gv):
        k = f'{gt}|{gv}'
        if k not in self.known:
            if self.replay:
                return False
            import z3
            from symx.core import Cur
            self.known[k] = SymBool(z3.Bool('R ' + k))
            Cur.eng.input('R ' + k, self.known[k])
        return self.known[k]


def recall(inputs):
    return AnyRel({k[2:]: v for k, v in inputs.items() if k.startswith('R ')})
