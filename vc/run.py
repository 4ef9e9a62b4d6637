"""Runner: units in parallel, evidence, replay of counterexamples on the real code in a separate process."""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from . import unit as unit_mod

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
PY = '/opt/venv/bin/python'


def quiet():
    import warnings
    warnings.simplefilter('ignore')


def load(pid):
    return importlib.import_module('vc.props.' + pid.lower()).PROP


# ------------------------------------------------------------------ native oracle in its own process
class Oracle:
    """A forked child that runs unit.oracle natively (the symbolic engine never patches anything in it)."""
    def __init__(self, unit, limit=90):
        self.unit, self.limit = unit, limit
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            fi, fo = os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb')
            while True:
                try:
                    ins, unit_mod.LIGHT = pickle.load(fi)
                except EOFError:
                    os._exit(0)
                try:
                    res = self.unit.oracle(ins)
                except BaseException as e:
                    res = dict(ok=None, got='oracle error: ' + repr(e)[:200], want='')
                pickle.dump(res, fo)
                fo.flush()
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    def __call__(self, ins, light=False):
        try:
            pickle.dump((ins, light), self.w)
            self.w.flush()
            rd, _, _ = select.select([self.r], [], [], self.limit)
            if rd:
                return pickle.load(self.r)
        except (OSError, EOFError, pickle.PickleError):
            pass
        self.stop()
        self.start()
        return dict(ok=None, got='no answer', want='')

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


# ------------------------------------------------------------------ one unit
def run_unit(unit, deadline, out):
    """in a forked worker"""
    os.setpgid(0, 0)
    quiet()
    import random
    random.seed(int(os.environ.get('VERIF_SEED', '1')))
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    oracle = Oracle(unit)
    from symx import core
    from symx.values import SymBool
    import z3
    t0 = time.time()
    dl = min(deadline, t0 + unit.secs)
    e = core.Eng(max_paths=unit.max_paths, deadline=dl, check_timeout_ms=unit.timeout_ms)
    res = dict(name=unit.name, viol=[], unrep=[], validated=0, samples=[], mism=[], oracle_err=[], fns=set())
    seen = set()
    fns = res['fns']
    cov = res['cov'] = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'vc')

        def on_start(code, off):
            f = code.co_filename
            if f.startswith(REPO) and '/gen/' not in f and code.co_name not in ('<module>',):
                fns.add(os.path.relpath(f, REPO) + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, on_start)
        ev = mon.events.PY_START
        if os.environ.get('VC_COV'):        # development: which source lines do the units reach
            def on_line(code, line):
                f = code.co_filename
                if f.startswith(REPO) and '/gen/' not in f:
                    cov.add((os.path.relpath(f, REPO), line))
                return mon.DISABLE
            mon.register_callback(3, mon.events.LINE, on_line)
            ev |= mon.events.LINE
        mon.set_events(3, ev)
    except Exception:
        pass

    def native(ins, msg, kind):
        key = repr(sorted(ins.items(), key=lambda kv: kv[0]))
        if key in seen:
            return None
        seen.add(key)
        r = oracle(ins, light=kind == 'path')
        if r.get('ok') is False:
            res['viol'].append(dict(unit=unit.name, inputs=ins, got=r.get('got'), want=r.get('want'), msg=msg, kind=kind))
        elif r.get('ok') is None:
            res['oracle_err'].append(str(r.get('got'))[:200])
        return r

    def end(eng, val):
        if eng.st['paths'] % unit.every:
            return
        m = eng.model()
        if m is None:
            return
        ins = eng.eval_inputs(m)
        r = native(ins, 'path model', 'path')
        if r is None or r.get('ok') is None:
            return
        res['validated'] += 1
        got = r.get('got')
        if len(res['samples']) < 3:
            res['samples'].append(dict(inputs=ins, result=got))
        if unit.compare is not None:
            from symx.values import concretize_model
            try:
                same = unit.compare(concretize_model(val, m), got)
            except Exception as ex:
                same = False
            if not same:
                res['mism'].append(dict(inputs=ins, model=repr(val)[:120], real=repr(got)[:120]))

    budget = [400]

    def incomplete(eng, exc):
        # the claim is decided for solver models of the abandoned path only (reported as not exhaustive)
        try:
            for ins in eng.diverse(24 if budget[0] > 200 else 4, rng):
                if budget[0] <= 0 or len(res['viol']) >= 3:
                    return
                budget[0] -= 1
                native(ins, 'path given up: ' + str(exc)[:100], 'fallback')
        except core.Control:
            pass
    try:
        e.explore(unit.body, end, incomplete, stop=lambda: len(res['viol']) >= 3 or len(e.cexs) >= 6)
    except BaseException as ex:
        e.st['exhaustive'] = False
        e.note('crash: ' + repr(ex)[:200])
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    try:
        mon.set_events(3, 0)
    except Exception:
        pass
    # counterexamples -> real code
    n = 0
    for c in e.cexs:
        for ins in c['inputs']:
            if n >= 12:
                break
            n += 1
            r = native(ins, c['msg'], 'counterexample')
            if r is not None and r.get('ok'):
                res['unrep'].append(dict(inputs=ins, msg=c['msg'], real=r.get('got')))
    if e.cexs or res['mism'] or res['oracle_err']:
        e.st['exhaustive'] = False
    if e.st['asserts'] == 0 and not res['viol']:
        e.note('no assertion reached (vacuous unit)')
        e.st['exhaustive'] = False
        res['vacuous'] = True
    res['st'] = e.st
    res['cex'] = len(e.cexs)
    res['wall'] = time.time() - t0
    oracle.stop()
    with open(out, 'wb') as f:
        pickle.dump(res, f)


def fork_unit(unit, deadline, tmp, i):
    out = os.path.join(tmp, f'{i}.pkl')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        if not os.environ.get('VC_DEBUG'):
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
        try:
            run_unit(unit, deadline, out)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    return pid, out


def killgrp(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass


def warm():
    """import and exercise the real code natively once (so the children share its caches)"""
    sys.path.insert(0, REPO)
    try:
        from math_evaluation import is_equiv
        for a, b in (('\\frac{1}{2}', '0.51'), ('x<2', '3>x'), ('[1,2]', '(1,2]'), ('2x+1=3', '2')):
            is_equiv(a, b)
    except BaseException:
        pass


# ------------------------------------------------------------------ known findings
def known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def confirm(pid, v):
    """replay in a fresh process on the unmodified code; returns path of the replay file or None"""
    from .jsonx import enc
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, unit=v['unit'], inputs=enc(v['inputs']), message=v['msg'], got=repr(v['got'])[:500],
                want=repr(v['want'])[:500])
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(d, f'{pid}-{h}.json')
    with open(f, 'w') as fh:
        json.dump(body, fh, indent=1, ensure_ascii=False)
    try:
        r = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'check.py'), 'replay', f], cwd=HERE, timeout=240,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return f if r.returncode == 1 else None
    except subprocess.TimeoutExpired:
        return None


def replay(path):
    quiet()
    from .jsonx import dec
    body = json.load(open(path))
    sys.path.insert(0, REPO)
    prop = load(body['property'])
    for tier in ('quick', 'thorough'):
        for u in prop.units(tier):
            if u.name == body['unit']:
                so = os.dup(1)
                os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                try:
                    r = u.oracle(dec(body['inputs']))
                finally:
                    sys.stdout.flush()
                    os.dup2(so, 1)
                print('property', body['property'], 'unit', u.name)
                print('inputs  ', body['inputs'])
                print('observed', r.get('got'))
                print('expected', r.get('want'))
                print('VIOLATED' if r.get('ok') is False else 'holds' if r.get('ok') else 'no verdict')
                return 1 if r.get('ok') is False else 0
    print('unknown unit')
    return 2


# ------------------------------------------------------------------ main
def run(pid, tier, only=None, verbose=False):
    quiet()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load(pid)
    total = 420 if tier == 'quick' else int(os.environ.get('VERIF_THOROUGH_S', '3000'))
    deadline = t0 + total
    warm()
    import symx                                           # noqa
    from symx import core, values, sstr, sre, loader, zsympy, bridge      # noqa (shared by the children)
    zsympy.models()
    units = [u for u in prop.units(tier) if not only or only in u.name]
    order = sorted(range(len(units)), key=lambda i: -units[i].weight)
    tmp = tempfile.mkdtemp(prefix='vc_')
    live, results, viols = {}, [], []
    knowns = [k for k in known() if k['property'] == pid and k.get('status') == 'known']
    from .jsonx import enc
    stop = False
    tried = 0
    kf = []
    unconf = []

    def handle(res):
        nonlocal stop, tried
        results.append(res)
        if verbose:
            st = res['st']
            print(f"  {res['name'][:70]:70s} {res['wall']:6.1f}s paths {st['paths']} ab {st['aborted']} inc {st['incomplete']} q {st['queries']} "
                  f"as {st['asserts']} val {res['validated']} cex {res['cex']} viol {len(res['viol'])} mism {len(res['mism'])} "
                  f"{'ok' if st['exhaustive'] else 'PARTIAL ' + str(st['notes'])}", flush=True)
            for k in ('viol', 'unrep', 'mism', 'oracle_err'):
                for x in res[k][:3]:
                    print('     ', k, x, flush=True)
        for v in res['viol']:
            k = [k for k in knowns if k['unit'] == v['unit'] and k['inputs'] == enc(v['inputs'])]
            if k:
                kf.append(k[0])
                continue
            if tried >= 6 or stop:
                break
            tried += 1
            f = confirm(pid, v)
            if f:
                viols.append((f, v))
                stop = True
            else:
                unconf.append(v)
    try:
        while (order and not stop) or live:
            while order and len(live) < NPROC and not stop and time.time() < deadline:
                i = order.pop(0)
                pid_, out = fork_unit(units[i], deadline, tmp, i)
                live[pid_] = (units[i], out, time.time())
            if not live:
                break
            p, _ = os.waitpid(-1, os.WNOHANG)
            if p in live:
                u, out, _ = live.pop(p)
                killgrp(p)
                try:
                    handle(pickle.load(open(out, 'rb')))
                except Exception as ex:
                    results.append(dict(name=u.name, lost=True))
                    if verbose:
                        print('  lost', u.name, repr(ex))
                continue
            now = time.time()
            for q, (u, out, ts) in list(live.items()):
                if stop or now > min(ts + u.secs, deadline) + 45:
                    killgrp(q)
                    os.waitpid(q, 0)
                    del live[q]
                    if not stop:
                        results.append(dict(name=u.name, lost=True))
                        if verbose:
                            print('  killed', u.name)
            time.sleep(0.02)
    finally:
        for q in live:
            killgrp(q)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    skipped = [units[i].name for i in order]
    ok = [r for r in results if 'st' in r]
    lost = [r['name'] for r in results if r.get('lost')]
    S = lambda k: sum(r['st'][k] for r in ok)
    fns = sorted(set().union(*[r['fns'] for r in ok])) if ok else []
    if os.environ.get('VC_COV'):
        with open(os.environ['VC_COV'], 'a') as f:
            for c in set().union(*[r['cov'] for r in ok]):
                print(*c, pid, file=f)
    notes = {}
    for r in ok:
        for k, n in r['st']['notes'].items():
            notes[k] = notes.get(k, 0) + n
    exhaustive = bool(ok) and not lost and not skipped and all(r['st']['exhaustive'] for r in ok) and not viols
    samples = []
    for r in ok:
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append(dict(unit=r['name'], inputs=enc(s['inputs']), result=repr(s['result'])[:160]))
    if not samples:
        samples = [dict(unit=r['name']) for r in ok[:5]] or ['none']
    cov = dict(states=S('paths'), transitions=S('forks'), traces_validated_against_impl=sum(r['validated'] for r in ok),
               samples=samples, exhaustive=exhaustive,
               paths=dict(explored=S('paths'), infeasible_or_assumed_away=S('aborted'), given_up=S('incomplete')),
               branch_decisions=S('branches'), solver_queries=S('queries'), solver_unknown=S('unknown'),
               solver_seconds=round(S('solver_s'), 2), assertions_checked=S('asserts'),
               assertions_with_symbolic_condition=S('asserts_nontrivial'),
               units=len(units), units_completed=len(ok), units_lost=lost[:20], units_skipped=skipped[:20],
               counterexamples=sum(r['cex'] for r in ok), unreproduced=sum(len(r['unrep']) for r in ok) + len(unconf),
               model_mismatches=sum(len(r['mism']) for r in ok),
               vacuous_units=[r['name'] for r in ok if r.get('vacuous')],
               notes=dict(sorted(notes.items(), key=lambda kv: -kv[1])[:15]),
               functions_encoded=fns[:150], bounds=prop.bounds,
               unit_bounds={u.name: u.bound for u in units if u.bound} if len(units) < 120 else {},
               slowest_units={r['name']: round(r['wall'], 1) for r in sorted(ok, key=lambda r: -r['wall'])[:5]})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=prop.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    txt = json.dumps(ev, indent=1, ensure_ascii=False, default=str)
    if len(txt) > 60000:
        cov['samples'] = cov['samples'][:3]
        cov['unit_bounds'] = {}
        txt = json.dumps(ev, indent=1, ensure_ascii=False, default=str)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        f.write(txt)
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {len(ok)}/{len(units)} units, {S('paths')} paths, {S('queries')} solver queries "
          f"({S('solver_s'):.1f} s), {cov['traces_validated_against_impl']} paths validated natively, "
          f"exhaustive={exhaustive}, {time.time() - t0:.1f} s")
    if notes and not exhaustive:
        print('notes:', cov['notes'])
    if cov['unreproduced'] or cov['model_mismatches']:
        print('not reproduced on the real code (not reported as violations):', cov['unreproduced'], 'mismatches:', cov['model_mismatches'])
    for f, v in viols:
        print('violation:', v['unit'], v['inputs'], 'observed', repr(v['got'])[:200], 'expected', repr(v['want'])[:200])
        print(f'VIOLATION property={pid} replay={f}')
    return 1 if viols else 0
