"""development aid: evaluate every formula of a property numerically against the repository (all disagreements listed)"""
import importlib, signal, os, sys, multiprocessing as mp
os.environ['PYTHONHASHSEED'] = '0'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symx.core


def boom(*a):
    raise MemoryError('slow')


def run(j):
    signal.signal(signal.SIGALRM, boom)
    U = UNITS[j]
    out = []
    for k in range(len(U.items)):
        try:
            signal.alarm(20)
            r = U.get(k)
            signal.alarm(0)
        except Exception as ex:
            out.append((U.name, k, 'ORACLE ' + type(ex).__name__ + str(ex)[:90], str(U.items[k])))
            continue
        if not r['ok']:
            out.append((U.name, k, r['got'], r['want']))
    return out


if __name__ == '__main__':
    m = importlib.import_module('vc.props.' + sys.argv[1].lower())
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    UNITS = [u for u in m.PROP.units(tier) if hasattr(u, 'items')]
    if len(sys.argv) > 3:
        UNITS = [u for u in UNITS if sys.argv[3] in u.name]
    print(len(UNITS), 'units', sum(len(u.items) for u in UNITS), 'formulas')
    with mp.Pool(8) as P:
        for r in P.imap_unordered(run, range(len(UNITS))):
            for x in r:
                print(x[0], '|', x[3][:110], '|', x[2][:110])
