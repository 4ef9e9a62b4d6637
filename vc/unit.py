"""A unit = one bounded symbolic execution: a body run once per path, and an oracle that decides the same claim natively
on the real, unmodified code for one concrete input (used to validate paths and to confirm counterexamples)."""

LIGHT = False       # true while the oracle is only asked to validate a path's model: it may try fewer variants


class Unit:
    """name: unique within the property.
    body(e): executed once per path under the engine; registers inputs with e.input, asserts with e.prove; may return the
             value computed by the code (compared with the oracle's 'got' for the path's model).
    oracle(inputs): runs the REAL code on concrete inputs -> dict(ok=bool, got=jsonable, want=text).
    """
    def __init__(self, name, body, oracle, max_paths=4000, secs=60, weight=1, compare=None, samples=None, bound='',
                 timeout_ms=8000, every=1):
        self.name = name
        self.body = body
        self.oracle = oracle
        self.max_paths = max_paths
        self.secs = secs
        self.weight = weight
        self.compare = compare
        self.bound = bound
        self.timeout_ms = timeout_ms
        self.every = every          # validate every n-th path's model natively


class Property:
    def __init__(self, id, units, bounds, assumptions=(), extra=None, note=''):
        self.id = id
        self.units = units          # callable(tier) -> list of Unit
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.extra = extra
        self.note = note
