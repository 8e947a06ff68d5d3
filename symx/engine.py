"""Path exploration by re-execution, and the z3 back end.

The code under test runs in the ordinary interpreter on symbolic scalars (symx.scalar).  A symbolic condition that
reaches `bool()` asks ENGINE.branch(), which consults z3 for the feasible outcomes, takes one and queues the other;
the scenario is re-executed until no queued prefix is left, so every feasible path (within the stated cap) is run."""
import threading
import time
import z3
from . import poly as P
from .poly import VARS


class Unsupported(Exception):
    """the encoding has no rule for an operation of the code under test"""


class Infeasible(BaseException):
    """the current path contradicts an assumption"""


class PathLimit(BaseException):
    pass


class DefTable:
    """definitional constraints of the auxiliary symbols (sqrt, cos, |.|, exp, ...), shared by all paths"""

    def __init__(self):
        self.defs = {}      # var id -> list of (z3 constraint, var ids)
        self.lemmas = {}    # var id -> list of thunk returning list of (constraint, vars): only added on request
        self.numdef = {}    # var id -> (var ids, fn(env) -> values)
        self.defined = set()
        self.lets = set()   # ids of the constraints that only name a large polynomial
        self.keep = []
        self.abstract = set()   # symbols of uninterpreted functions

    def add_def(self, vids, constraint, used):
        entry = (constraint, frozenset(used) | frozenset(vids))
        for v in vids:
            self.defs.setdefault(v, []).append(entry)

    def add_let(self, vids, constraint, used):
        self.add_def(vids, constraint, used)
        self.lets.add(constraint.get_id())
        self.keep.append(constraint)

    def add_lemma(self, vids, thunk):
        for v in vids:
            self.lemmas.setdefault(v, []).append(thunk)

    def add_numeric(self, vids, fn):
        for v in vids:
            self.numdef[v] = (tuple(vids), fn)
        self.defined.update(vids)


class NumEnv(dict):
    """numeric values of variables; auxiliary symbols are computed on demand from their definition"""

    def __missing__(self, v):
        d = DEFS.numdef.get(v)
        if d is None:
            raise KeyError(VARS.names[v])
        vids, fn = d
        vals = fn(self)
        for i, x in zip(vids, vals):
            self[i] = x
        return self[v]


DEFS = DefTable()
_z3vars = {}
_z3cache = {}


def z3var(i):
    v = _z3vars.get(i)
    if v is None:
        n = VARS.names[i]
        v = z3.ToReal(z3.Int(n)) if VARS.is_int[i] else z3.Real(n)
        _z3vars[i] = v
    return v


def rat(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal(str(c.numerator) + '/' + str(c.denominator))


def z3poly(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in p.items():
        fs = [z3var(v) for v in m]
        if c != 1 or not fs:
            fs.insert(0, rat(c))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


DEFS.add_def([P.R2], z3.And(z3var(P.R2) > 0, z3var(P.R2) * z3var(P.R2) == 2), [])
DEFS.add_def([P.PI], z3.And(z3var(P.PI) > rat(P.Fraction(31415926535, 10**10)),
                            z3var(P.PI) < rat(P.Fraction(31415926536, 10**10))), [])


DEFS.add_numeric([P.R2], lambda e: [2.0 ** 0.5])
DEFS.add_numeric([P.PI], lambda e: [3.141592653589793])


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.max_query_s = 0.0
        self.cross_checked = 0
        self.cross_s = 0.0


class Engine:
    def __init__(self):
        self.stats = Stats()
        self.reset_path([])
        self.worklist = []
        self.branch_timeout = 3000
        self.query_timeout = 60000
        self.deadline = None     # of the scenario: later queries are answered `unknown`
        self.skip_lets = False   # branch feasibility without the definitions of large polynomials
        self.inputs = {}

    # ---------------------------------------------------------------- path state
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []          # (z3 bool, vars)
        self.assumed = []
        self.inputs = {}      # name -> list of var ids / descriptor
        self.path_log = []

    def add_pc(self, c, vs):
        self.pc.append((c, frozenset(vs)))

    # ---------------------------------------------------------------- solving
    def _cone(self, seed_vars, extra=(), lemmas=False, lets=True, defs=True):
        """constraints connected to seed_vars: definitions, path condition"""
        seen = set(seed_vars)
        work = list(seen)
        out = []
        used = set()
        pcs = list(self.pc)
        pc_by_var = {}
        for k, (c, vs) in enumerate(pcs):
            for v in vs:
                pc_by_var.setdefault(v, []).append(k)
        lem_done = set()
        while work:
            v = work.pop()
            items = list(DEFS.defs.get(v, ())) if defs else []
            if not lets:
                items = [x for x in items if x[0].get_id() not in DEFS.lets]
            if lemmas:
                for th in DEFS.lemmas.get(v, ()):
                    if id(th) not in lem_done:
                        lem_done.add(id(th))
                        items.extend(th())
            for k in pc_by_var.get(v, ()):
                items.append(pcs[k])
            for c, vs in items:
                i = c.get_id()
                if i in used:
                    continue
                used.add(i)
                out.append(c)
                for w in vs:
                    if w not in seen:
                        seen.add(w)
                        work.append(w)
        return out, seen

    def check(self, conds, vs, timeout, lemmas=False, branch=False, all_pc=False, box=None, lets=True, defs=True):
        """sat / unsat / unknown of  path condition & definitions & conds"""
        if all_pc:
            vs = set(vs)
            for _, w in self.pc:
                vs |= w
        cons, seen = self._cone(vs, lemmas=lemmas, lets=lets, defs=defs)
        self.last_cone = seen
        t0 = time.time()
        res, model = 'unknown', None
        tries = ('default', 'nra')
        for how in tries:
            s = z3.Solver() if how == 'default' else z3.SolverFor('QF_NRA')
            s.set('timeout', int(timeout))
            s.set('random_seed', 1)
            for c in cons:
                s.add(c)
            for c in conds:
                s.add(c)
            if box:
                for v in seen:
                    if v not in DEFS.defined and v not in (P.R2, P.PI):
                        s.add(z3var(v) <= box, z3var(v) >= -box)
            left = (self.deadline - time.time()) if self.deadline else 1e9
            if left <= 0.05:
                break
            if left * 1000 < timeout:
                s.set('timeout', max(100, int(left * 1000)))
            # z3 does not always honour its own timeout
            dog = threading.Timer(min(left, timeout / 1000.0) + 2, z3.main_ctx().interrupt)
            dog.daemon = True
            dog.start()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            finally:
                dog.cancel()
            if r == z3.unsat:
                res = 'unsat'
                break
            if r == z3.sat:
                res = 'sat'
                model = s.model()
                break
            if branch:
                break
        dt = time.time() - t0
        st = self.stats
        st.solver_s += dt
        if branch:
            st.branch_queries += 1
        else:
            st.queries += 1
            st.max_query_s = max(st.max_query_s, dt)
            if res == 'unsat':
                st.unsat += 1
                self.last_unsat = (cons, conds)
            elif res == 'sat':
                st.sat += 1
            else:
                st.unknown += 1
        return res, model

    def linked(self, seen):
        """variables of path conditions that reach `seen` only through the definitions of their own variables"""
        seen = set(seen) - {P.R2, P.PI}
        extra = set()
        for c, vs in self.pc:
            if vs <= seen or vs & seen:
                continue
            if self._closure(vs) & seen:
                extra |= vs
        return extra

    def _closure(self, vs):
        out, work = set(vs), list(vs)
        while work:
            for c, ws in DEFS.defs.get(work.pop(), ()):
                for w in ws:
                    if w not in out:
                        out.add(w)
                        work.append(w)
        return out

    # ---------------------------------------------------------------- branching
    def feasible(self, cond, vs):
        """False only if the solver shows that the condition contradicts the path (unknown counts as feasible)"""
        if DEFS.lets:
            r, _ = self.check([cond], vs, min(1000, self.branch_timeout), branch=True, lets=False)
            if r == 'unsat':
                return False
            if self.skip_lets:
                return True
        r, _ = self.check([cond], vs, self.branch_timeout, branch=True)
        if r == 'sat':
            more = self.linked(self.last_cone)
            if more:
                r, _ = self.check([cond], set(vs) | more, self.branch_timeout, branch=True)
        return r != 'unsat'

    def branch(self, cond, vs):
        """decide a symbolic condition on the current path"""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            if type(d) is not bool:
                raise Unsupported('re-execution took another path')
            self.trace.append(d)
            self.add_pc(cond if d else z3.Not(cond), vs)
            return d
        d = None
        simp = z3.simplify(cond)
        if z3.is_true(simp):
            d = True
        elif z3.is_false(simp):
            d = False
        elif not self.feasible(cond, vs):
            d = False
        elif not self.feasible(z3.Not(cond), vs):
            d = True
        if d is not None:
            # only one outcome: part of the trace, so that a re-execution stays aligned with it
            self.trace.append(d)
            self.add_pc(cond if d else z3.Not(cond), vs)
            return d
        self.worklist.append(self.trace + [False])
        self.trace.append(True)
        self.add_pc(cond, vs)
        return True

    def choose(self, options):
        """options: list of (z3 bool or None, vars).  Explores every feasible one; returns the index taken."""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            if type(d) is bool or d >= len(options):
                raise Unsupported('re-execution took another path')
            self.trace.append(d)
            c, vs = options[d]
            if c is not None:
                self.add_pc(c, vs)
            return d
        feas = []
        for i, (c, vs) in enumerate(options):
            if c is None:
                feas.append(i)
                continue
            if self.feasible(c, vs):
                feas.append(i)
        if not feas:
            raise Infeasible()
        for i in reversed(feas[1:]):
            self.worklist.append(self.trace + [i])
        d = feas[0]
        self.trace.append(d)
        c, vs = options[d]
        if c is not None:
            self.add_pc(c, vs)
        return d

    def assume(self, cond, vs):
        simp = z3.simplify(cond)
        if z3.is_true(simp):
            return
        r, _ = self.check([cond], vs, self.branch_timeout, branch=True)
        if r == 'unsat':
            raise Infeasible()
        self.add_pc(cond, vs)

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, max_paths=100000, max_s=None):
        """run fn on every feasible path; fn may return 'stop' to end the exploration"""
        self.worklist = [[]]
        n = 0
        complete = True
        t0 = time.time()
        self.deadline = t0 + 1.2 * max_s if max_s else None
        while self.worklist:
            if n >= max_paths or (max_s and time.time() - t0 > max_s):
                complete = False
                break
            prefix = self.worklist.pop()
            self.reset_path(prefix)
            try:
                r = fn()
            except Infeasible:
                continue
            n += 1
            if r == 'stop':
                complete = False
                break
        return n, complete


ENGINE = Engine()
