from ..spec import value, accept, boundary, dens, nonzero, shape
from symx.values import snot, sor, sand


def pre_vals(gts, gvs):
    """assumptions keeping every pair of readings off the thresholds"""
    for a in gts:
        for b in gvs:
            yield snot(boundary(a, b))


def pre_dens(gt, gv):
    for d in dens(gt) + dens(gv):
        yield nonzero(d)


def spec_val(gt, gv):
    return accept(value(gt), value(gv))


def pre_val(gt, gv):
    yield from pre_dens(gt, gv)
    yield from pre_vals([value(gt)], [value(gv)])


def any_accept(gts, gvs):
    return sor(*[accept(a, b) for a in gts for b in gvs])
