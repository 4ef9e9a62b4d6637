"""Path-exploring symbolic execution engine (re-execution DFS, z3 decides every branch)."""
import os
import time
import z3


class Control(BaseException):
    """Engine control flow: never caught by the code under test (the loader re-raises it)."""


class PathAbort(Control):
    """The path is infeasible or was cut by an assumption."""


class Incomplete(Control):
    """The path was given up (a bound of the engine, not of the claim, was hit)."""


class Budget(Control):
    """The unit's path or time budget is exhausted."""


class Unsupported(Incomplete):
    pass


class Eng:
    """One exploration. A global `E` holds the engine in use."""

    def __init__(self, max_paths=20000, deadline=None, check_timeout_ms=8000):
        self.solver = z3.Solver()
        self.solver.set('timeout', check_timeout_ms)
        self.stack = []
        self.max_paths = max_paths
        self.deadline = deadline
        self.st = dict(paths=0, aborted=0, incomplete=0, branches=0, forks=0, queries=0, solver_s=0.0,
                       unknown=0, asserts=0, asserts_nontrivial=0, exhaustive=True, notes={})
        self.cexs = []
        self.reset_path([])

    # ---- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.dom = {}
        self.ent = set()
        self.inputs = {}
        self.observed = {}
        self.fresh_n = 0
        self.uncertain = False
        self.path_notes = []

    def name(self, base):
        self.fresh_n += 1
        return f'{base}!{self.fresh_n}'

    def note(self, text):
        self.st['notes'][text] = self.st['notes'].get(text, 0) + 1

    # ---- solver stack
    def add(self, e, unary=None):
        """unary: name of the only variable of e when e is a domain constraint (keeps it un-entangled)."""
        if unary is None:
            from .values import zvars
            for v in zvars(e):
                self.ent.add(str(v))
        s = self.stack
        if self.pos < len(s) and s[self.pos].eq(e):
            self.pos += 1
            return
        if self.pos < len(s):
            self.solver.pop(len(s) - self.pos)
            del s[self.pos:]
        self.solver.push()
        self.solver.add(e)
        s.append(e)
        self.pos += 1

    def sync(self):
        if self.pos < len(self.stack):
            self.solver.pop(len(self.stack) - self.pos)
            del self.stack[self.pos:]

    def check(self, *extra):
        self.sync()
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        t = time.time()
        r = self.solver.check(*extra)
        self.st['solver_s'] += time.time() - t
        self.st['queries'] += 1
        if r == z3.unknown:
            self.st['unknown'] += 1
        return r

    # ---- branching
    def branch(self, sb):
        """sb: SymBool with .e (z3 expr) and optional .u (varname, allowed set). Returns a Python bool."""
        i = len(self.trace)
        if i < len(self.prefix):
            val, forced = self.prefix[i][0], self.prefix[i][1]
        else:
            self.st['branches'] += 1
            if self.free_unary(sb):
                rt = rf = z3.sat
                val, forced = True, False
                self.work.append(self.trace + [(False, False)])
                self.st['forks'] += 1
                rt = None
            else:
                rt = self.check(sb.e)
            if rt is None:
                pass
            elif rt == z3.unsat:
                val, forced = False, True
            else:
                rf = self.check(z3.Not(sb.e))
                if rf == z3.unsat:
                    val, forced = True, True
                else:
                    val, forced = True, False
                    if rt == z3.unknown or rf == z3.unknown:
                        self.note('branch with unknown feasibility explored on both sides')
                    self.work.append(self.trace + [(False, False)])
                    self.st['forks'] += 1
        self.trace.append((val, forced))
        if not forced:
            u = sb.u
            one = u[0][0] if u and (val or len(u) == 1) and len({x[0] for x in u}) == 1 else None
            if u and val and one is None:
                from .values import in_set
                import z3 as _z
                for (vn, S) in u:
                    self.add(in_set(_z.Int(vn), S & self.dom[vn]), unary=vn)
            else:
                self.add(sb.e if val else z3.Not(sb.e), unary=one)
        self.apply_dom(sb, val)
        return val

    def free_unary(self, sb):
        """Both outcomes are satisfiable because only untangled domain variables are involved."""
        u = sb.u
        if not u:
            return False
        d = {}
        proper = False
        for v, S in u:
            if v in self.ent:
                return False
            cur = d.get(v, self.dom[v])
            n = cur & S
            if not n:
                return False
            if len(n) < len(cur):
                proper = True
            d[v] = n
        return proper

    def apply_dom(self, sb, val):
        u = sb.u
        if u is None:
            return
        if isinstance(u, list):          # conjunction of unary constraints
            if val:
                for (v, S) in u:
                    self.dom[v] = self.dom[v] & S
            elif len(u) == 1:
                v, S = u[0]
                self.dom[v] = self.dom[v] - S

    def choose(self, n, label='choice'):
        """Nondeterministic choice 0..n-1, as a solver variable (so models report it)."""
        if n == 1:
            return 0
        v = z3.Int(self.name(label))
        self.add(z3.And(v >= 0, v < n))
        from .values import SymBool
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.branch(SymBool(v < mid)):
                hi = mid
            else:
                lo = mid
        return lo

    def assume(self, cond):
        from .values import SymBool
        if isinstance(cond, SymBool):
            self.add(cond.e)
            self.apply_dom(cond, True)
            i = len(self.trace)
            if i >= len(self.prefix):
                if self.check() == z3.unsat:
                    raise PathAbort('assumption')
                self.trace.append((True, True))
            else:
                self.trace.append(self.prefix[i])
        elif not cond:
            raise PathAbort('assumption')

    def model(self, *extra):
        r = self.check(*extra)
        if r == z3.sat:
            return self.solver.model()
        return None

    def prove(self, cond, msg='', limit=4):
        """Assertion. Records counterexamples; afterwards assumes cond."""
        from .values import SymBool
        self.st['asserts'] += 1
        if isinstance(cond, SymBool):
            neg = z3.Not(cond.e)
            self.st['asserts_nontrivial'] += 1
        else:
            if cond:
                return True
            neg = z3.BoolVal(True)
        r = self.check(neg)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.note('assertion undecided: ' + msg)
            self.st['exhaustive'] = False
            return True
        blocked = []
        found = []
        for _ in range(limit):
            m = self.model(neg, *blocked)
            if m is None:
                break
            ins = self.eval_inputs(m)
            found.append(ins)
            b = self.block(m)
            if b is None:
                break
            blocked.append(b)
        self.cexs.append(dict(msg=msg, inputs=found))
        if isinstance(cond, SymBool):
            if self.check(cond.e) == z3.unsat:
                raise PathAbort('assertion fails on the whole path')
            self.add(cond.e)
        else:
            raise PathAbort('assertion fails on the whole path')
        return False

    def block(self, m):
        vs = self.input_vars()
        if not vs:
            return None
        return z3.Or(*[v != m.eval(v, model_completion=True) for v in vs])

    def input_vars(self):
        from .values import vars_of
        out = {}
        for x in self.inputs.values():
            for v in vars_of(x):
                out[str(v)] = v
        return list(out.values())

    def eval_inputs(self, m):
        from .values import concretize_model
        return {k: concretize_model(v, m) for k, v in self.inputs.items()}

    def diverse(self, n, rng):
        """up to n different solver models of the path condition, spread over the domains of the inputs"""
        vs = self.input_vars()
        seen = set()
        for _ in range(n):
            pick = [v == rng.choice(sorted(self.dom[str(v)])) for v in vs if self.dom.get(str(v))]
            rng.shuffle(pick)
            m = None
            while True:
                m = self.model(*pick)
                if m is not None or not pick:
                    break
                pick = pick[:len(pick) // 2]
            if m is None:
                return
            ins = self.eval_inputs(m)
            k = repr(sorted(ins.items(), key=lambda kv: kv[0]))
            if k not in seen:
                seen.add(k)
                yield ins

    def input(self, name, val):
        self.inputs[name] = val
        return val

    def concretize(self, zexpr, limit=40):
        """Fork on the value of an integer term; returns a Python int. Enumerates all values (solver-driven)."""
        from .values import SymBool
        zexpr = z3.simplify(zexpr)
        if z3.is_int_value(zexpr):
            return zexpr.as_long()
        for _ in range(limit):
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i][2]
            else:
                m = self.model()
                if m is None:
                    raise PathAbort('infeasible')
                v = m.eval(zexpr, model_completion=True).as_long()
            if self.branch_val(SymBool(zexpr == v), v):
                return v
        self.note('concretisation limit reached')
        raise Incomplete('concretisation limit')

    def branch_val(self, sb, v):
        """Like branch, but the decision entry carries the value v (needed to replay concretize)."""
        i = len(self.trace)
        if i < len(self.prefix):
            val, forced = self.prefix[i][0], self.prefix[i][1]
        else:
            self.st['branches'] += 1
            rf = self.check(z3.Not(sb.e))
            if rf == z3.unsat:
                val, forced = True, True
            else:
                val, forced = True, False
                self.work.append(self.trace + [(False, False, v)])
                self.st['forks'] += 1
        self.trace.append((val, forced, v))
        if not forced:
            self.add(sb.e if val else z3.Not(sb.e))
        return val

    # ---- exploration
    def explore(self, fn, on_path_end=None, on_incomplete=None, stop=None):
        """fn() is executed once per path."""
        global ENGINE
        self.work = [[]]
        old = Cur.eng
        Cur.eng = self
        try:
            while self.work:
                if self.st['paths'] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.st['exhaustive'] = False
                    self.note('budget exhausted')
                    break
                if stop is not None and stop():
                    self.st['exhaustive'] = False
                    break
                prefix = self.work.pop()
                self.reset_path(prefix)
                self.st['paths'] += 1
                try:
                    r = fn()
                    if on_path_end:
                        on_path_end(self, r)
                except PathAbort:
                    self.st['aborted'] += 1
                except Incomplete as e:
                    self.st['incomplete'] += 1
                    self.st['exhaustive'] = False
                    self.note('incomplete: ' + str(e)[:120])
                    if on_incomplete:
                        on_incomplete(self, e)
                except Budget:
                    self.st['exhaustive'] = False
                    self.note('budget exhausted')
                    break
                except Exception as e:
                    if os.environ.get('SYMX_DEBUG'):
                        import traceback
                        traceback.print_exc()
                    self.st['incomplete'] += 1
                    self.st['exhaustive'] = False
                    self.note('incomplete: crash ' + repr(e)[:120])
                    if on_incomplete:
                        on_incomplete(self, e)
        finally:
            Cur.eng = old
        return self


class Cur:
    eng = None


def E():
    return Cur.eng
