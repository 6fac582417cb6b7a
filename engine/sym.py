"""Deductive verification-condition generator over the extracted IR.

A function is executed symbolically for all inputs; loops are cut by inductive
invariants (or unrolled when the trip count is a compile-time constant, with the
exit condition checked, so completely); calls to functions that carry a contract
are replaced by the contract (pre proved, post assumed); other defined functions
are inlined.  Every obligation is a quantifier-free bit-vector/UF formula that is
handed to Z3 (and cvc5 as second back end)."""
import time, sys, os, itertools, subprocess, tempfile
import z3
import z3.z3 as _z3py
_z3py.Z3_DEBUG = False
from llir import (Unsupported, ExtractError, Ty, size_of, struct_layout, ITY)

sys.setrecursionlimit(20000)
BV = z3.BitVecVal


def bv(v, w):
    return z3.BitVecVal(v, w)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_cnt = itertools.count()


def fresh(name, w):
    n = '%s!%d' % (name, next(_cnt))
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def simp(t):
    return z3.simplify(t)


def is_c(t):
    return z3.is_bv_value(t)


def cval(t):
    """concrete value of a bit-vector term or None"""
    if z3.is_bv_value(t):
        return t.as_long()
    s = z3.simplify(t)
    if z3.is_bv_value(s):
        return s.as_long()
    return None


def cbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


def land(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        r.append(x)
    if not r:
        return TRUE
    return r[0] if len(r) == 1 else z3.And(*r)


def lor(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        r.append(x)
    if not r:
        return FALSE
    return r[0] if len(r) == 1 else z3.Or(*r)


def lnot(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


# ------------------------------------------------------------------ ghost functions / buffers
class GF:
    """a mathematical function of fixed arity, represented as a closure"""

    def __init__(self):
        self.memo = {}

    def __call__(self, *args):
        k = tuple(a.get_id() for a in args)
        r = self.memo.get(k)
        if r is None:
            r = self.ev(args)
            self.memo[k] = (args, r)
            return r
        return r[1]


class GUF(GF):
    def __init__(self, name, sorts, ret):
        GF.__init__(self)
        self.decl = z3.Function('%s!%d' % (name, next(_cnt)), *(sorts + [ret]))

    def ev(self, args):
        return self.decl(*args)


class GUpd(GF):
    def __init__(self, prev, cond, val):
        GF.__init__(self)
        self.prev, self.cond, self.val = prev, cond, val

    def ev(self, args):
        c = self.cond(*args)
        k = cbool(c)
        if k is True:
            return self.val(*args)
        if k is False:
            return self.prev(*args)
        return ite(c, self.val(*args), self.prev(*args))


class GIte(GF):
    def __init__(self, c, a, b):
        GF.__init__(self)
        self.c, self.a, self.b = c, a, b

    def ev(self, args):
        return ite(self.c, self.a(*args), self.b(*args))


class GFn(GF):
    def __init__(self, fn):
        GF.__init__(self)
        self.fn = fn

    def ev(self, args):
        return self.fn(*args)


class GConst(GF):
    """concrete table with a lazily built symbolic read"""

    def __init__(self, vals, w, spec=None):
        GF.__init__(self)
        self.vals, self.w, self.spec = vals, w, spec

    def ev(self, args):
        i = cval(args[0])
        if i is not None:
            return bv(self.vals[i], self.w) if i < len(self.vals) else fresh('oob', self.w)
        if self.spec is not None:
            return self.spec(args[0])
        n = len(self.vals)

        # binary tree over the index bits
        idx = args[0]
        bits = max(1, (n - 1).bit_length())

        def tree(lo, b):
            if lo >= n:
                return bv(0, self.w)
            if b < 0:
                return bv(self.vals[lo], self.w)
            a = tree(lo, b - 1)
            c = tree(lo + (1 << b), b - 1)
            if a.eq(c):
                return a
            return z3.If(z3.Extract(b, b, idx) == 1, c, a)
        return tree(0, bits - 1)


def gupd(prev, cond, val):
    return GUpd(prev, cond, val)


# ------------------------------------------------------------------ pointers, objects
class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts        # [(cond, obj or None, off)]

    def single(self):
        if len(self.alts) == 1:
            return self.alts[0]
        return None


def pobj(o, off=0):
    return Ptr([(TRUE, o, bv(off, 64) if isinstance(off, int) else off)])


NULL = Ptr([(TRUE, None, bv(0, 64))])


def pmaybe(c, p):
    """null unless c"""
    return Ptr([(land(c, g), o, f) for g, o, f in p.alts] + [(lnot(c), None, bv(0, 64))])


class Obj:
    def __init__(self, name, kind, size, esize=1, const=False, local=False):
        self.name, self.kind, self.size, self.esize, self.const, self.local = name, kind, size, esize, const, local
        # kind: 'cells' (concrete offsets) or 'buf' (element array)
        # size: int (cells) or BV64 term in bytes

    def __repr__(self):
        return '<%s>' % self.name


class Cell:
    __slots__ = ('size', 'val', 'dfd')

    def __init__(self, size, val, dfd=TRUE):
        self.size, self.val, self.dfd = size, val, dfd


# ------------------------------------------------------------------ clauses
class C:
    """a closed clause"""

    def __init__(self, label, f, key=None):
        self.label, self.f, self.key = label, f, key or label


class A:
    """forall over the given kinds: fn(*terms) -> Bool"""

    def __init__(self, label, kinds, fn, key=None):
        self.label, self.kinds, self.fn, self.key = label, kinds, fn, key or label


class D:
    """definitional: for all args with guard(args): ghost-after(args) == val(args)"""

    def __init__(self, label, ghost, guard, val, key=None):
        self.label, self.ghost, self.guard, self.val, self.key = label, ghost, guard, val, key or label


KIND_W = {'page': 32, 'block': 32, 'sec': 32, 'depth': 32, 'byte': 32, 'idx': 64, 'lvl': 32}


class State:
    __slots__ = ('facts', 'mem', 'gh', 'env', 'foralls', 'pools', 'fset', 'notes', 'ev')
    base = {}           # terms to keep in a focused state
    insts = {}          # instances of universal facts (id -> term)
    derive = {}         # kind -> fn(term) -> [(kind, term)] registered along with it

    def __init__(self):
        self.facts, self.mem, self.gh, self.env = [], {}, {}, {}
        self.foralls, self.pools, self.fset = [], {}, set()
        self.notes = ()
        self.ev = ()

    def copy(self):
        s = State.__new__(State)
        s.facts = list(self.facts)
        s.mem = dict(self.mem)
        s.gh = dict(self.gh)
        s.env = dict(self.env)
        s.foralls = list(self.foralls)
        s.pools = {k: list(v) for k, v in self.pools.items()}
        s.fset = set(self.fset)
        s.notes = self.notes
        s.ev = self.ev
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if f.get_id() in self.fset:
            return
        self.fset.add(f.get_id())
        self.facts.append(f)

    def add_term(self, kind, t):
        pl = self.pools.setdefault(kind, [])
        if any(x.eq(t) for x in pl):
            return
        pl.append(t)
        for kinds, fn in self.foralls:
            if kind in kinds:
                self._inst(kinds, fn, kind, t)
        if kind in State.derive:
            for k2, t2 in State.derive[kind](t):
                self.add_term(k2, t2)

    def _inst(self, kinds, fn, kind=None, t=None):
        lists = [self.pools.get(k, []) for k in kinds]
        for tup in itertools.product(*lists):
            if t is not None and not any(k == kind and x.eq(t) for k, x in zip(kinds, tup)):
                continue
            f = fn(*tup)
            if not isinstance(f, bool):
                for c in (f.children() if z3.is_and(f) else [f]):
                    State.insts[c.get_id()] = c
            self.assume(f)

    def focus(self, **kw):
        """a state with fewer facts: the universal ones only for the terms given"""
        s = self.copy()
        s.facts = [f for f in self.facts if f.get_id() not in State.insts]
        s.fset = {f.get_id() for f in s.facts}
        s.pools = {}
        for kd, l in kw.items():
            for t in l:
                s.add_term(kd, t)
        return s

    def add_forall(self, kinds, fn):
        self.foralls.append((kinds, fn))
        self._inst(kinds, fn)

    # --- cells
    def getcell(self, o, off):
        return self.mem[o].get(off)

    def setcell(self, o, off, size, val, dfd=TRUE):
        m = dict(self.mem[o])
        m[off] = Cell(size, val, dfd)
        self.mem[o] = m


# ------------------------------------------------------------------ solver front end
class Stats:
    def __init__(self):
        self.z3 = 0
        self.cvc5 = 0
        self.time = 0.0
        self.queries = 0
        self.maxq = 0.0


class Obl:
    __slots__ = ('func', 'label', 'kind', 'desc', 'status', 'time', 'backend', 'model', 'facts', 'goal', 'notes')

    def __init__(self, func, label, kind, desc):
        self.func, self.label, self.kind, self.desc = func, label, kind, desc
        self.status, self.time, self.backend, self.model = 'open', 0.0, '', None
        self.facts = self.goal = None
        self.notes = ()


def solver_for(timeout_ms):
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', timeout_ms)
    return s


def solver2_for(timeout_ms):
    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
    s.set('timeout', timeout_ms)
    return s


def cone(facts, goal):
    """drop facts that share no symbol (transitively) with the goal -- sound for proving"""
    syms = {}

    def consts(e):
        r = syms.get(e.get_id())
        if r is not None:
            return r[1]
        seen, out, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                st.extend(x.children())
        syms[e.get_id()] = (e, out)
        return out
    return facts


def rpo(f):
    """reverse post-order without back edges"""
    seen, post = set(), []

    def succs(b):
        t = f.blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [b2 for _, b2 in t.x[1]]
        return []
    stack = [(f.order[0], iter(succs(f.order[0])))]
    seen.add(f.order[0])
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                stack.append((n, iter(succs(n))))
                break
        else:
            post.append(b)
            stack.pop()
    return {b: i for i, b in enumerate(reversed(post))}


class Executor:
    def __init__(self, modules, stats=None, deadline=None):
        self.funcs = {}
        self.globals = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
            for g, v in m.globals.items():
                if v[1] is not None or g not in self.globals:
                    self.globals[g] = (m, v)
        self.modfuncs = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.modfuncs[(id(m), n)] = f
        self.handlers = {}
        self.gobjs = {}
        self.tables = {}            # global name -> spec closure for symbolic reads
        self.stats = stats or Stats()
        self.obls = []
        self.mute = 0
        self.fname = '?'
        self.inc = None
        self.inc_levels = []
        self.inc_stack = []
        self.cand_fn = None         # loop-candidate generator
        self.unroll_max = 70
        self.houdini_cache = {}
        self.callstack = []
        self.prove_timeout = int(20000 * self.patience)
        self.quick_timeout = int(1500 * self.patience)
        self.safety_label = 'safety'
        self.inlined = set()
        self.called = set()
        self.loops_cut = []
        self.loops_unrolled = []
        self.force_unroll = False
        self.feas_unknown = 0
        self.pref = 0               # which solver strategy goes first on hard queries
        self.undecided = 0          # invariant candidates (or proof hints) dropped because the solvers ran out of time
        self.trace = bool(os.environ.get('VTRACE'))
        self.deadline = deadline
        self.failfast = False
        self.force_cut = False
        self.loop_hook = None
        self.evn = 0
        self.join = False           # merge paths at control-flow joins unless a driver operation or contract came out differently
        self.soft = set()           # handlers of functions that are simple code (no cut point at a loop, paths merged)

    # ---------------- incremental solver
    def sync(self, facts):
        if self.inc is None:
            self.inc = z3.Solver()
            self.inc.set('timeout', self.quick_timeout)
        st = self.inc_stack
        k = 0
        n = min(len(st), len(facts))
        while k < n and st[k] is facts[k]:
            k += 1
        while self.inc_levels and len(st) > k:
            self.inc.pop()
            lo = self.inc_levels.pop()
            del st[lo:]
        if len(st) < len(facts):
            self.inc.push()
            self.inc_levels.append(len(st))
            for f in facts[len(st):]:
                self.inc.add(f)
                st.append(f)

    def check_quick(self, facts, extra):
        """sat / unsat / unknown of facts /\\ extra with the incremental solver"""
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('job deadline')
        t0 = time.time()
        self.sync(facts)
        self.inc.push()
        self.inc.add(extra)
        r = self.inc.check()
        self.inc.pop()
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.queries += 1
        return r

    def feasible(self, st, extra):
        k = cbool(extra)
        if k is False:
            return False
        if lnot(extra).get_id() in st.fset:
            return False
        if extra.get_id() in st.fset:
            return True
        r = self.check_quick(st.facts, extra)
        if r == z3.unknown:
            self.feas_unknown += 1
        return r != z3.unsat

    # ---------------- proving
    def prove(self, facts, goal, timeout=None, want_model=False):
        """returns (status, backend, time, model)"""
        t0 = time.time()
        final = timeout is None
        if self.deadline and t0 > self.deadline:
            raise TimeoutError('job deadline')
        timeout = timeout or self.prove_timeout
        def attempt(mk, tmo):
            s = mk(tmo)
            for f in facts:
                s.add(f)
            s.add(z3.Not(goal))
            try:
                return s.check(), s
            except z3.Z3Exception:
                return z3.unknown, s
        self.stats.queries += 1
        names = {solver_for: 'z3', solver2_for: 'z3-smt'}
        order = [solver_for, solver2_for] if self.pref == 0 else [solver2_for, solver_for]
        dt = 0
        for i, (mk, tmo) in enumerate(((solver_for, 1000), (order[0], timeout // 2), (order[1], timeout))):
            if self.pref == 0 and i == 0:
                continue
            r, s = attempt(mk, tmo)
            dt0, dt = dt, time.time() - t0
            self.stats.time += dt - dt0
            self.stats.maxq = max(self.stats.maxq, dt)
            if r != z3.unknown:
                if i == 2:
                    self.pref = 1 - self.pref
                return ('proved', names[mk], dt, None) if r == z3.unsat else ('failed', names[mk], dt, s.model())
        r2 = self.cvc5(facts, goal, timeout // 2)
        if r2 not in ('unsat', 'sat'):
            r2 = str(attempt(solver_for, timeout)[0])
        if r2 not in ('unsat', 'sat') and final:
            # last resort: the same query with other search seeds
            for seed in (7, 23):
                def mk(tmo):
                    s = solver_for(tmo)
                    s.set('random_seed', seed)
                    return s
                r2 = str(attempt(mk, timeout * 2)[0])
                if r2 in ('unsat', 'sat'):
                    break
        dt0, dt = dt, time.time() - t0
        self.stats.time += dt - dt0
        if r2 == 'unsat':
            return 'proved', 'cvc5', dt, None
        if r2 == 'sat':
            return 'failed', 'cvc5', dt, None
        return 'unknown', 'z3+cvc5', dt, None

    def cvc5(self, facts, goal, timeout):
        s = z3.Solver()
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
        fn = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        fn.write(txt)
        fn.close()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fn.name], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout / 1000 + 10)
            out = p.stdout.decode().split()
            return out[0] if out else 'unknown'
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        finally:
            os.unlink(fn.name)

    def known(self, st, goal):
        if goal.get_id() in st.fset:
            return True
        if z3.is_and(goal):
            return all(self.known(st, c) for c in goal.children())
        return False

    split_kinds = ('lvl',)

    def cases(self, st, kinds, sk):
        """case split for a universal goal: equal to one of the terms around, or to none"""
        for k, t in zip(kinds, sk):
            if k in self.split_kinds:
                ts = [x for x in st.pools.get(k, []) if not x.eq(t) and not z3.is_bv_value(x)]
                if 0 < len(ts) <= 6:
                    return st.focus(**dict(State.base, **{k: [t] + ts})), [t == x for x in ts] + [land(*[t != x for x in ts])]
        return None

    def prove_split(self, facts, goal, cases, timeout=None):
        if not cases:
            return self.prove(facts, goal, timeout)
        sf, cases = cases
        tt, back, worst = 0, 'z3', 'proved'
        for c in cases:
            # first with the facts about the terms of the goal only
            st, b, t, m = self.prove(sf.facts + [c], goal, min(timeout or self.prove_timeout, 6000))
            tt += t
            if st != 'proved':
                st, b, t, m = self.prove(facts + [c], goal, timeout)
                tt += t
            if st == 'failed':
                return st, b, tt, m
            if st != 'proved':
                worst = st
            back = b if b != 'z3' else back
        return worst, back, tt, None

    def holds(self, st, goal, timeout=None, cases=None):
        """boolean query used by the invariant filter (not an obligation)"""
        k = cbool(goal)
        if k is True:
            return True
        if k is False:
            return not self.feasible(st, TRUE)
        if self.known(st, goal):
            return True
        r = self.check_quick(st.facts, z3.Not(goal))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        r = self.prove_split(st.facts, goal, cases, timeout or int(8000 * self.patience))[0]
        if r != 'proved' and r != 'failed':
            self.undecided += 1
            if self.trace:
                print('   holds:', r, flush=True)
        return r == 'proved'

    patience = float(os.environ.get('V_PATIENCE', '1'))

    def oblige(self, st, label, goal, kind, desc='', cases=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mute:
            st.assume(goal)
            return True
        o = Obl(self.fname, label, kind, desc or kind)
        k = cbool(goal)
        if k is True:
            if kind != 'safety':
                o.status, o.backend = 'proved', 'simplifier'
                self.obls.append(o)
            return True
        if self.known(st, goal):
            o.status, o.backend = 'proved', 'simplifier'
            self.obls.append(o)
            return True
        t0 = time.time()
        r = self.check_quick(st.facts, z3.Not(goal))
        if r == z3.unsat:
            o.status, o.backend, o.time = 'proved', 'z3', time.time() - t0
        else:
            o.status, o.backend, o.time, m = self.prove_split(st.facts, goal, cases)
            if o.status != 'proved':
                o.model = str(m)[:4000] if m is not None else None
                o.facts, o.goal = list(st.facts), goal
                o.notes = st.notes
                if self.trace:
                    print('  FAIL', o.func, label, kind, desc, o.status, st.notes[-14:], flush=True)
        self.obls.append(o)
        st.assume(goal)
        return o.status == 'proved'

    def oblige_clause(self, st, cl, kind, view=None):
        """prove a clause in st (skolemizing universals); returns bool"""
        if isinstance(cl, C):
            return self.oblige(st, cl.label, cl.f, kind, cl.key)
        if isinstance(cl, A):
            s2 = st.copy()
            sk = [fresh('sk_' + k, KIND_W[k]) for k in cl.kinds]
            for k, t in zip(cl.kinds, sk):
                s2.add_term(k, t)
            return self.oblige(s2, cl.label, cl.fn(*sk), kind, cl.key, cases=self.cases(s2, cl.kinds, sk))
        if isinstance(cl, D):
            s2 = st.copy()
            kinds = self.ghost_kinds[cl.ghost]
            sk = [fresh('sk_' + k, KIND_W[k]) for k in kinds]
            for k, t in zip(kinds, sk):
                s2.add_term(k, t)
            g = imp(cl.guard(*sk), s2.gh[cl.ghost](*sk) == cl.val(*sk))
            return self.oblige(s2, cl.label, g, kind, cl.key)
        raise AssertionError(cl)

    def clause_holds(self, st, cl):
        if isinstance(cl, C):
            return self.holds(st, cl.f)
        s2 = st.copy()
        if isinstance(cl, A):
            sk = [fresh('sk_' + k, KIND_W[k]) for k in cl.kinds]
            for k, t in zip(cl.kinds, sk):
                s2.add_term(k, t)
            return self.holds(s2, cl.fn(*sk), cases=self.cases(s2, cl.kinds, sk))
        kinds = self.ghost_kinds[cl.ghost]
        sk = [fresh('sk_' + k, KIND_W[k]) for k in kinds]
        for k, t in zip(kinds, sk):
            s2.add_term(k, t)
        return self.holds(s2, imp(cl.guard(*sk), s2.gh[cl.ghost](*sk) == cl.val(*sk)))

    def assume_clause(self, st, cl):
        if isinstance(cl, C):
            st.assume(cl.f)
        elif isinstance(cl, A):
            st.add_forall(cl.kinds, cl.fn)
        elif isinstance(cl, D):
            base = st.gh[cl.ghost]
            st.gh[cl.ghost] = GUpd(base, cl.guard, cl.val)

    ghost_kinds = {}
    ghost_sorts = {}

    # ---------------- objects
    def new_obj(self, st, name, ty=None, nbytes=None, local=False):
        if ty is not None and ty.k == 'arr' and ty.el.k == 'i':
            es = size_of(ty.el)
            o = Obj(name, 'buf', bv(ty.n * es, 64), es, local=local)
            st.mem[o] = GUF('uninit_' + name, [z3.BitVecSort(64)], z3.BitVecSort(8 * es))
            return o
        if ty is not None:
            o = Obj(name, 'cells', size_of(ty), local=local)
            st.mem[o] = {}
            return o
        o = Obj(name, 'buf', nbytes, 1, local=local)
        st.mem[o] = GUF(name, [z3.BitVecSort(64)], z3.BitVecSort(8))
        return o

    def global_obj(self, st, m, name):
        if name in m.globals and m.globals[name][1] is not None:
            mm, (ty, init, const) = m, m.globals[name]
        elif name in self.globals:
            mm, (ty, init, const) = self.globals[name]
        else:
            raise Unsupported('unknown global ' + name)
        key = (id(mm), name)
        if key in self.gobjs:
            o = self.gobjs[key]
            if o not in st.mem:
                st.mem[o] = self.ginit[o]
            return o
        if ty is None or init is None:
            raise Unsupported('global without initializer ' + name)
        if not const:
            raise Unsupported('mutable global ' + name)
        if ty.k == 'arr' and ty.el.k == 'i':
            es = size_of(ty.el)
            o = Obj(name, 'buf', bv(ty.n * es, 64), es, const=True)
            vals = [0] * ty.n if init[0] == 'zero' else [x[1] & ((1 << (8 * es)) - 1) for x in init[1]]
            st.mem[o] = GConst(vals, 8 * es, self.tables.get(name))
        else:
            o = Obj(name, 'cells', size_of(ty), const=True)
            self.gobjs[key] = o
            st.mem[o] = {}
            cells = {}
            self._initcells(st, mm, cells, 0, ty, init)
            st.mem[o] = cells
        self.gobjs[key] = o
        if not hasattr(self, 'ginit'):
            self.ginit = {}
        self.ginit[o] = st.mem[o]
        return o

    def _initcells(self, st, m, cells, off, ty, init):
        if ty.k == 'struct':
            _, offs = struct_layout(ty)
            for n, (e, o) in enumerate(zip(ty.el, offs)):
                self._initcells(st, m, cells, off + o, e, init[1][n] if init[0] == 'agg' else init)
        elif ty.k == 'arr':
            for n in range(ty.n):
                self._initcells(st, m, cells, off + n * size_of(ty.el), ty.el,
                                init[1][n] if init[0] == 'agg' else init)
        else:
            if init[0] == 'zero':
                v = NULL if ty.k == 'ptr' else bv(0, ty.n)
            elif init[0] == 'int':
                v = bv(init[1], ty.n)
            elif init[0] == 'null':
                v = NULL
            elif init[0] == 'glob':
                v = pobj(self.global_obj(st, m, init[1][1:]))
            else:
                raise Unsupported('global init %r' % (init,))
            cells[off] = Cell(size_of(ty), v)

    # ---------------- values
    def val(self, st, fr, ty, op):
        k = op[0]
        if k == 'loc':
            return st.env[(fr, op[1])]
        if k == 'int':
            if ty.n == 1:
                return z3.BoolVal(op[1] & 1 == 1)
            return bv(op[1], ty.n)
        if k == 'null':
            return NULL
        if k == 'undef':
            return NULL if ty.k == 'ptr' else fresh('undef', ty.n)
        if k == 'zero':
            return NULL if ty.k == 'ptr' else bv(0, ty.n)
        if k == 'glob':
            return pobj(self.global_obj(st, self.curmod, op[1][1:]))
        if k == 'gep':
            return self.gep(st, fr, op[1], self.val(st, fr, Ty('ptr'), op[2]), op[3])
        raise Unsupported('value %r' % (op,))

    def gep(self, st, fr, ty, base, idx):
        delta = None
        cur = ty
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                scale = size_of(cur)
            elif cur.k == 'struct':
                i = iv[1]
                _, offs = struct_layout(cur)
                d = bv(offs[i], 64)
                delta = d if delta is None else delta + d
                cur = cur.el[i]
                continue
            else:
                cur = cur.el
                scale = size_of(cur)
            if iv[0] == 'int':
                d = bv(iv[1] * scale, 64)
            else:
                v = self.val(st, fr, it, iv)
                if it.n < 64:
                    v = z3.SignExt(64 - it.n, v)
                d = v * bv(scale, 64) if scale != 1 else v
            delta = d if delta is None else delta + d
        delta = simp(delta)
        if cval(delta) == 0:
            return base
        return Ptr([(g, o, simp(f + delta)) for g, o, f in base.alts])

    # ---------------- memory access
    def deref(self, st, p, n, what, write=False, cond=TRUE):
        """safety obligations of an n-byte access (n: int or BV64 term)"""
        nt = bv(n, 64) if isinstance(n, int) else n
        for g, o, off in p.alts:
            g = land(g, cond)
            if o is None:
                self.oblige(st, self.safety_label, lnot(g) if isinstance(n, int) else lor(lnot(g), nt == 0),
                            'safety', 'null dereference: ' + what)
                continue
            size = bv(o.size, 64) if isinstance(o.size, int) else o.size
            ok = land(z3.ULE(nt, size), z3.ULE(off, size - nt))
            if cbool(ok) is not True:
                if not isinstance(n, int):
                    ok = lor(nt == 0, ok)
                self.oblige(st, self.safety_label, imp(g, ok), 'safety', 'access in bounds of %s: %s' % (o.name, what))
            if write and o.const:
                self.oblige(st, self.safety_label, lnot(g), 'safety', 'write to constant %s: %s' % (o.name, what))

    def load(self, st, p, ty, what=''):
        n = size_of(ty)
        self.deref(st, p, n, what)
        res = None
        for g, o, off in reversed(p.alts):
            if o is None:
                continue
            v = self.load1(st, o, off, ty, what, g)
            if res is None:
                res = v
            else:
                res = self.vite(g, v, res)
        if res is None:
            return NULL if ty.k == 'ptr' else fresh('nullload', ty.n)
        return res

    def vite(self, c, a, b):
        if isinstance(a, Ptr):
            return self.pite(c, a, b)
        return ite(c, a, b)

    def pite(self, c, a, b):
        k = cbool(c)
        if k is True:
            return a
        if k is False:
            return b
        alts = []
        for g, o, f in a.alts:
            alts.append([land(c, g), o, f])
        nc = lnot(c)
        for g, o, f in b.alts:
            for x in alts:
                if x[1] is o and x[2].eq(f):
                    x[0] = lor(x[0], land(nc, g))
                    break
            else:
                alts.append([land(nc, g), o, f])
        alts = [tuple(x) for x in alts if not z3.is_false(x[0])]
        if len(alts) == 1:
            return Ptr([(TRUE, alts[0][1], alts[0][2])])
        return Ptr(alts)

    def load1(self, st, o, off, ty, what, g=TRUE):
        n = size_of(ty)
        if o not in st.mem:
            # a constant global reached through a pointer
            if hasattr(self, 'ginit') and o in self.ginit:
                st.mem[o] = self.ginit[o]
            else:
                raise Unsupported('object not in memory: ' + o.name)
        if o.kind == 'cells':
            k = cval(off)
            if k is None:
                return self.load_sym_cells(st, o, off, ty, what)
            c = st.mem[o].get(k)
            if c is None:
                # wider cell containing this one?
                for o2, c2 in st.mem[o].items():
                    if o2 <= k and k + n <= o2 + c2.size and not isinstance(c2.val, Ptr) and ty.k == 'i':
                        b = (k - o2) * 8
                        return z3.Extract(b + ty.n - 1, b, c2.val)
                parts = [(o2, c2) for o2, c2 in st.mem[o].items() if k <= o2 < k + n]
                if parts:
                    raise Unsupported('mixed-size cell load ' + what)
                self.oblige(st, self.safety_label, lnot(g), 'safety', 'read of uninitialized %s+%d: %s' % (o.name, k, what))
                v = NULL if ty.k == 'ptr' else fresh('uninit', ty.n if ty.n > 1 else 8)
                st.setcell(o, k, n, v)
                return v
            if c.dfd is not TRUE and not z3.is_true(c.dfd):
                self.oblige(st, self.safety_label, imp(g, c.dfd), 'safety', 'read of uninitialized %s+%d: %s' % (o.name, k, what))
            if ty.k == 'ptr':
                if not isinstance(c.val, Ptr):
                    raise Unsupported('pointer load of integer cell ' + what)
                return c.val
            if isinstance(c.val, Ptr):
                raise Unsupported('integer load of pointer cell ' + what)
            if c.size != n:
                if c.size > n:
                    return z3.Extract(ty.n - 1, 0, c.val)
                raise Unsupported('mixed-size cell load ' + what)
            return c.val
        # buffer
        if ty.k != 'i':
            raise Unsupported('pointer load from buffer ' + what)
        buf = st.mem[o]
        es = o.esize
        if es == n:
            return buf(self.elem_index(st, o, off, es))
        if n % es == 0:
            parts = [buf(self.elem_index(st, o, simp(off + i * es), es)) for i in range(n // es)]
            return z3.Concat(*reversed(parts))
        k = cval(off)
        if k is not None:
            e = buf(bv(k // es, 64))
            b = (k % es) * 8
            return z3.Extract(b + ty.n - 1, b, e)
        raise Unsupported('narrow load from wide buffer ' + what)

    def load_sym_cells(self, st, o, off, ty, what):
        """symbolic offset into a cells object (array of pointers/structs): case split"""
        n = size_of(ty)
        res = None
        for k, c in sorted(st.mem[o].items()):
            if c.size != n:
                continue
            if res is None:
                res = c.val
            else:
                res = self.vite(off == k, c.val, res)
        if res is None:
            raise Unsupported('symbolic cell load ' + what)
        self.oblige(st, self.safety_label, lor(*[off == k for k, c in st.mem[o].items() if c.size == n]), 'safety',
                    'aligned element access: ' + what)
        return res

    def elem_index(self, st, o, off, es):
        if es == 1:
            return off
        k = cval(off)
        sh = es.bit_length() - 1
        if k is not None:
            if k % es:
                raise Unsupported('misaligned element access')
            return bv(k // es, 64)
        idx = self.unscale(off, es)
        if idx is None:
            idx = simp(z3.LShR(off, sh))
            self.oblige(st, self.safety_label, (off & (es - 1)) == 0, 'safety', 'aligned element access')
        return idx

    def unscale(self, off, es):
        return None

    def store(self, st, p, v, ty, what=''):
        n = size_of(ty)
        self.deref(st, p, n, what, write=True)
        if ty.k == 'i' and ty.n < 8:
            v = ite(v, bv(1, 8), bv(0, 8)) if ty.n == 1 else z3.ZeroExt(8 - ty.n, v)
        for g, o, off in p.alts:
            if o is None or o.const:
                continue
            self.store1(st, o, off, v, n, g, what)

    def store1(self, st, o, off, v, n, g, what):
        if o.kind == 'cells':
            k = cval(off)
            if k is None:
                raise Unsupported('symbolic offset into %s: %s' % (o.name, what))
            old = st.mem[o].get(k)
            for o2, c2 in st.mem[o].items():
                if o2 != k and o2 < k + n and k < o2 + c2.size:
                    raise Unsupported('overlapping cell store ' + what)
            if z3.is_true(g):
                st.setcell(o, k, n, v)
            else:
                if old is None:
                    st.setcell(o, k, n, v, g)
                else:
                    if old.size != n:
                        raise Unsupported('mixed-size guarded store')
                    st.setcell(o, k, n, self.vite(g, v, old.val), lor(g, old.dfd))
            return
        if isinstance(v, Ptr):
            raise Unsupported('pointer store into buffer ' + what)
        es = o.esize
        buf = st.mem[o]
        if n % es:
            k = cval(off)
            raise Unsupported('narrow store into wide buffer ' + what)
        for i in range(n // es):
            e = v if n == es else z3.Extract(i * 8 * es + 8 * es - 1, i * 8 * es, v)
            ix = self.elem_index(st, o, simp(off + i * es), es)
            buf = GUpd(buf, (lambda ix, g: lambda a: land(g, a == ix))(ix, g), (lambda e: lambda a: e)(e))
        st.mem[o] = buf

    def buf_write_range(self, st, p, n, fn, what):
        """write n bytes: byte k (BV64, 0<=k<n) := fn(k); n BV64 term"""
        self.deref(st, p, n, what, write=True)
        for g, o, off in p.alts:
            if o is None or o.const:
                continue
            if o.kind != 'buf' or o.esize != 1:
                raise Unsupported('range write into %s: %s' % (o.name, what))
            buf = st.mem[o]
            st.mem[o] = GUpd(buf, (lambda off, g, n: lambda a: land(g, z3.ULT(simp(a - off), n)))(off, g, n),
                             (lambda off: lambda a: fn(simp(a - off)))(off))

    def memset(self, st, p, b, n, what='memset'):
        nn = cval(n)
        if nn is not None and all(o is None or o.kind == 'cells' or o.esize != 1 for _, o, _ in p.alts):
            # whole-cell / wide element memset
            if nn == 0:
                return
            self.deref(st, p, nn, what, write=True)
            for g, o, off in p.alts:
                if o is None:
                    continue
                if o.kind == 'buf':
                    es = o.esize
                    k0 = cval(off)
                    if nn % es or k0 is None or k0 % es:
                        raise Unsupported('memset on wide buffer')
                    e = z3.Concat(*[b] * es)
                    lo, cnt = bv(k0 // es, 64), bv(nn // es, 64)
                    st.mem[o] = GUpd(st.mem[o], (lambda g, lo, cnt: lambda a: land(g, z3.ULT(simp(a - lo), cnt)))(g, lo, cnt),
                                     (lambda e: lambda a: e)(e))
                else:
                    k0 = cval(off)
                    cs = [(k, c) for k, c in st.mem[o].items() if k0 <= k < k0 + nn]
                    if sum(c.size for _, c in cs) != nn or cval(b) != 0:
                        raise Unsupported('memset on cells')
                    for k, c in cs:
                        z = NULL if isinstance(c.val, Ptr) else bv(0, 8 * c.size)
                        st.setcell(o, k, c.size, self.vite(g, z, c.val))
            return
        self.buf_write_range(st, p, n, lambda k: b, what)

    def memcpy(self, st, d, s, n, what='memcpy'):
        nn = cval(n)
        so = s.single()
        do = d.single()
        if nn is not None and so and do and so[1] is not None and do[1] is not None and \
           (so[1].kind == 'cells' or so[1].esize != 1):
            self.deref(st, s, nn, what)
            self.deref(st, d, nn, what, write=True)
            sob, dob = so[1], do[1]
            ks, kd = cval(so[2]), cval(do[2])
            if sob.kind == 'buf' and dob.kind == 'buf' and sob.esize == dob.esize and ks is not None and kd is not None:
                es = sob.esize
                if nn % es or ks % es or kd % es:
                    raise Unsupported('partial element memcpy')
                src = st.mem[sob]
                lo, cnt, sl = bv(kd // es, 64), bv(nn // es, 64), bv(ks // es, 64)
                st.mem[dob] = GUpd(st.mem[dob], lambda a: z3.ULT(simp(a - lo), cnt), lambda a: src(simp(a - lo + sl)))
                return
            if sob.kind == 'cells' and dob.kind == 'cells' and ks is not None and kd is not None:
                if sob not in st.mem:
                    st.mem[sob] = self.ginit[sob]
                for k, c in list(st.mem[sob].items()):
                    if ks <= k < ks + nn:
                        st.setcell(dob, k - ks + kd, c.size, c.val, c.dfd)
                return
            raise Unsupported('memcpy shape')
        self.deref(st, s, n, what)
        srcs = []
        for g, o, off in s.alts:
            if o is None:
                continue
            if o.kind != 'buf' or o.esize != 1:
                raise Unsupported('memcpy source ' + o.name)
            srcs.append((g, st.mem[o], off))

        def rd(k):
            r = None
            for g, b, off in reversed(srcs):
                v = b(simp(off + k))
                r = v if r is None else ite(g, v, r)
            return r
        if not srcs:
            return
        self.buf_write_range(st, d, n, rd, what)

    # ---------------- running
    def run(self, name, st, args, module=None):
        """inline-execute function; returns list of (state, retval)"""
        f = self.lookup(name, module)
        return self.run_func(f, st, args)

    def lookup(self, name, module=None):
        if module is not None and (id(module), name) in self.modfuncs:
            return self.modfuncs[(id(module), name)]
        return self.funcs[name]

    def run_func(self, f, st, args):
        if len(self.callstack) > 40:
            raise Unsupported('call depth')
        fr = next(_cnt)
        st = st.copy()
        if len(args) != len(f.params):
            raise Unsupported('arity of ' + f.name)
        for (ty, nm), a in zip(f.params, args):
            st.env[(fr, nm)] = a
        self.callstack.append(f.name)
        savem = getattr(self, 'curmod', None)
        self.curmod = f.module
        try:
            exits, rets, backs = self.region(f, fr, [(f.order[0], None, st)], None)
        finally:
            self.callstack.pop()
            self.curmod = savem
        out = []
        for s, rv in rets:
            s.env = {k: v for k, v in s.env.items() if k[0] != fr}
            out.append((s, rv))
        return out

    def region(self, f, fr, starts, active):
        """execute from starts [(block, prev, state)] until: ret, or back edge to the
        header of loop `active`, or an edge leaving `active`.
        returns (exits [(block, prev, state)], rets, backs)"""
        work = list(reversed(starts))
        exits, rets, backs = [], [], []
        first = True
        if self.join and not hasattr(f, '_rpo'):
            f._rpo = rpo(f)
        while work:
            if self.join and len(work) > 1:
                n = min(range(len(work)), key=lambda q: (f._rpo.get(work[q][0], 0), -q))
                work.append(work.pop(n))
            blk, prev, st = work.pop()
            if active is not None and prev is not None and not (first and prev == '#enter'):
                if blk == active.header and prev in active.blocks:
                    backs.append((blk, prev, st))
                    continue
                if blk not in active.blocks:
                    exits.append((blk, prev, st))
                    continue
            L = f.loops.get(blk)
            if L is not None and L is not active and (prev is None or prev not in L.blocks):
                # gather all pending entries? enter loop individually
                ex, rt = self.loop(f, fr, L, prev, st)
                rets += rt
                for b2, p2, s2 in ex:
                    work.append((b2, p2, s2))
                continue
            if prev != '#enter':
                self.phis(f, fr, blk, prev, st)
                if self.join and prev is not None:
                    same = [w for w in work if w[0] == blk and w[1] is not None and w[1] != '#enter' and w[2].ev == st.ev
                            and not (active is not None and w[0] == active.header)]
                    if same:
                        sts = [st]
                        for w in same:
                            self.phis(f, fr, blk, w[1], w[2])
                            if self.joinable(f, fr, blk, st, w[2]):
                                sts.append(w[2])
                                work.remove(w)
                        if len(sts) > 1:
                            m, _ = self.merge_states(sts)
                            m.ev = st.ev
                            st = m
            nxt, rt = self.block(f, fr, blk, st, 0)
            rets += rt
            for b2, s2 in nxt:
                work.append((b2, blk, s2))
        return exits, rets, backs

    def joinable(self, f, fr, blk, a, b):
        """keep outcomes apart that differ in a constant result"""
        for ins in f.blocks[blk]:
            if ins.op != 'phi':
                break
            x, y = a.env.get((fr, ins.res)), b.env.get((fr, ins.res))
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                continue
            if x is None or y is None:
                return False
            if f.blocks[blk][-1].op == 'ret' and cval(x) is not None and cval(y) is not None and cval(x) != cval(y):
                return False
        return True

    def phis(self, f, fr, blk, prev, st):
        new = []
        for ins in f.blocks[blk]:
            if ins.op != 'phi':
                break
            for v, b in ins.args:
                if b == prev:
                    new.append(((fr, ins.res), self.val(st, fr, ins.ty, v)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        for k, v in new:
            st.env[k] = v

    def block(self, f, fr, blk, st, start):
        """run one basic block; returns ([(succ, state)], [rets])"""
        rets = []
        nexts = []
        todo = [(st, start)]
        instrs = f.blocks[blk]
        while todo:
            st, i = todo.pop()
            while True:
                ins = instrs[i]
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op == 'br':
                    if not ins.args:
                        nexts.append((ins.x[0], st))
                        break
                    c = self.val(st, fr, ITY(1), ins.args[0])
                    c = simp(c)
                    k = cbool(c)
                    if k is not None:
                        nexts.append((ins.x[0] if k else ins.x[1], st))
                        break
                    if ins.x[0] == ins.x[1]:
                        nexts.append((ins.x[0], st))
                        break
                    nc = simp(lnot(c))
                    t = self.feasible(st, c)
                    e = self.feasible(st, nc) if t else True
                    if t and e:
                        s2 = st.copy()
                        s2.assume(nc)
                        s2.notes = st.notes + ('%s:%s-' % (f.name, blk),)
                        st.assume(c)
                        st.notes = st.notes + ('%s:%s+' % (f.name, blk),)
                        nexts.append((ins.x[1], s2))
                        nexts.append((ins.x[0], st))
                    elif t:
                        st.assume(c)
                        nexts.append((ins.x[0], st))
                    else:
                        st.assume(nc)
                        nexts.append((ins.x[1], st))
                    break
                if op == 'switch':
                    v = self.val(st, fr, ins.ty, ins.args[0])
                    rem = st
                    dflt, cases = ins.x
                    for cv, b in cases:
                        c = v == bv(cv, ins.ty.n)
                        if self.feasible(rem, c):
                            s2 = rem.copy()
                            s2.assume(c)
                            nexts.append((b, s2))
                        rem.assume(lnot(c))
                    if self.feasible(rem, TRUE):
                        nexts.append((dflt, rem))
                    break
                if op == 'ret':
                    rv = self.val(st, fr, ins.ty, ins.args[0]) if ins.args else None
                    rets.append((st, rv))
                    break
                if op == 'unreachable':
                    self.oblige(st, self.safety_label, FALSE, 'safety', 'unreachable code reached in ' + f.name)
                    break
                if op == 'call':
                    outs = self.call(f, fr, ins, st)
                    if ins.res is not None:
                        for s2, rv in outs:
                            s2.env[(fr, ins.res)] = rv
                    if not outs:
                        break
                    for s2, rv in outs[1:]:
                        todo.append((s2, i + 1))
                    st = outs[0][0]
                    i += 1
                    continue
                r = self.simple(f, fr, ins, st)
                if ins.res is not None:
                    st.env[(fr, ins.res)] = r
                i += 1
        return nexts, rets

    def simple(self, f, fr, ins, st):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = self.val(st, fr, ins.ty, ins.args[0])
            b = self.val(st, fr, ins.ty, ins.args[1])
            if ins.ty.n == 1:
                if op == 'and':
                    return land(a, b)
                if op == 'or':
                    return lor(a, b)
                if op in ('xor', 'add', 'sub'):
                    return simp(z3.Xor(a, b))
                raise Unsupported('i1 ' + op)
            w = ins.ty.n
            if op in ('add', 'sub', 'mul'):
                r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                if 'nsw' in ins.x:
                    if op == 'add':
                        ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
                    elif op == 'sub':
                        ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                    else:
                        ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
                    if not (is_c(a) and is_c(b)) or cbool(ok) is not True:
                        self.oblige(st, self.safety_label, simp(ok), 'safety', 'signed overflow in %s: %s' % (f.name, ins.txt))
                return simp(r) if (is_c(a) or is_c(b)) else r
            if op in ('and', 'or', 'xor'):
                r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
                return simp(r) if (is_c(a) or is_c(b)) else r
            if op in ('shl', 'lshr', 'ashr'):
                if not is_c(b) or b.as_long() >= w:
                    self.oblige(st, self.safety_label, z3.ULT(b, w), 'safety', 'shift amount in range in %s: %s' % (f.name, ins.txt))
                r = a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
                return simp(r) if (is_c(a) or is_c(b)) else r
            self.oblige(st, self.safety_label, b != 0, 'safety', 'division by zero in ' + f.name)
            if op == 'udiv':
                return simp(z3.UDiv(a, b))
            if op == 'urem':
                return simp(z3.URem(a, b))
            self.oblige(st, self.safety_label, lnot(land(b == bv(-1, w), a == bv(1 << (w - 1), w))), 'safety',
                        'signed division overflow in ' + f.name)
            return simp(a / b) if op == 'sdiv' else simp(z3.SRem(a, b))
        if op == 'icmp':
            if ins.ty.k == 'ptr':
                return self.pcmp(st, ins.x, self.val(st, fr, ins.ty, ins.args[0]), self.val(st, fr, ins.ty, ins.args[1]))
            a = self.val(st, fr, ins.ty, ins.args[0])
            b = self.val(st, fr, ins.ty, ins.args[1])
            p = ins.x
            if ins.ty.n == 1:
                if p == 'eq':
                    return simp(a == b)
                if p == 'ne':
                    return simp(a != b)
                a, b = ite(a, bv(1, 1), bv(0, 1)), ite(b, bv(1, 1), bv(0, 1))
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
            return simp(r)
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(st, fr, ins.x, ins.args[0])
            w, w2 = ins.x.n, ins.ty.n
            if op == 'trunc':
                if w2 == 1:
                    return simp(z3.Extract(0, 0, a) == 1)
                return simp(z3.Extract(w2 - 1, 0, a))
            if w == 1:
                one = bv(1, w2) if op == 'zext' else bv(-1, w2)
                return ite(a, one, bv(0, w2))
            return simp(z3.ZeroExt(w2 - w, a) if op == 'zext' else z3.SignExt(w2 - w, a))
        if op == 'bitcast':
            return self.val(st, fr, ins.x, ins.args[0])
        if op == 'freeze':
            return self.val(st, fr, ins.ty, ins.args[0])
        if op == 'select':
            c = self.val(st, fr, ITY(1), ins.args[0])
            a = self.val(st, fr, ins.ty, ins.args[1])
            b = self.val(st, fr, ins.ty, ins.args[2])
            return self.vite(simp(c), a, b)
        if op == 'alloca':
            if ins.x is not None and ins.x[1] != ('int', 1):
                raise Unsupported('dynamic alloca')
            o = self.new_obj(st, '%s.%s' % (f.name, ins.res[1:]), ins.ty, local=True)
            return pobj(o)
        if op == 'gep':
            base = self.val(st, fr, Ty('ptr'), ins.args[0])
            return self.gep(st, fr, ins.ty, base, ins.x)
        if op == 'load':
            p = self.val(st, fr, Ty('ptr'), ins.args[0])
            v = self.load(st, p, ins.ty if not (ins.ty.k == 'i' and ins.ty.n == 1) else ITY(8), '%s: %s' % (f.name, ins.txt))
            if ins.ty.k == 'i' and ins.ty.n == 1:
                v = simp(z3.Extract(0, 0, v) == 1)
            return v
        if op == 'store':
            v = self.val(st, fr, ins.ty, ins.args[0])
            p = self.val(st, fr, Ty('ptr'), ins.args[1])
            self.store(st, p, v, ins.ty, '%s: %s' % (f.name, ins.txt))
            return None
        raise Unsupported('%s in %s' % (op, f.name))

    def pcmp(self, st, pred, a, b):
        if pred not in ('eq', 'ne'):
            sa, sb = a.single(), b.single()
            if sa and sb and sa[1] is sb[1]:
                x, y = sa[2], sb[2]
                return simp({'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pred](x, y))
            raise Unsupported('pointer ordering')
        eq = []
        for g, o, f in a.alts:
            for g2, o2, f2 in b.alts:
                if o is o2:
                    eq.append(land(g, g2, TRUE if o is None else f == f2))
        r = lor(*eq)
        r = simp(r)
        return r if pred == 'eq' else simp(lnot(r))

    def call(self, f, fr, ins, st):
        name = ins.x
        args = [self.val(st, fr, t, v) for t, v in ins.args]
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                self.memcpy(st, args[0], args[1], args[2], '%s: memcpy' % f.name)
                return [(st, None)]
            if name.startswith('llvm.memset'):
                self.memset(st, args[0], args[1], args[2], '%s: memset' % f.name)
                return [(st, None)]
            if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') \
               or name.startswith('llvm.experimental.noalias'):
                return [(st, None)]
            mm = name.split('.')
            if mm[1] in ('umin', 'umax', 'smin', 'smax', 'abs', 'fshl', 'fshr', 'bswap', 'ctpop'):
                a = args[0]
                if mm[1] == 'ctpop':
                    w = a.size()
                    r = bv(0, w)
                    for i in range(w):
                        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
                    return [(self._ret(st), r)]
                if mm[1] == 'bswap':
                    w = a.size()
                    return [(st, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))]
                if mm[1] in ('umin', 'umax', 'smin', 'smax'):
                    b = args[1]
                    c = {'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b), 'smin': a < b, 'smax': a > b}[mm[1]]
                    return [(st, ite(c, a, b))]
            raise Unsupported('intrinsic ' + name)
        if name in ('memcpy', 'memmove') and name not in self.funcs:
            self.memcpy(st, args[0], args[1], args[2], '%s: %s' % (f.name, name))
            return [(st, args[0])]
        if name == 'memset' and name not in self.funcs:
            self.memset(st, args[0], simp(z3.Extract(7, 0, args[1])), args[2], '%s: memset' % f.name)
            return [(st, args[0])]
        if name == 'memcmp' and name not in self.funcs:
            return self.memcmp(st, args, f.name)
        h = self.handlers.get(name)
        if h is not None:
            self.called.add(name)
            outs = h(self, st, args)
            if len(outs) > 1:
                self.evn += 1
                for n, (s2, _) in enumerate(outs):
                    s2.ev = s2.ev + ((self.evn, n),)
            return outs
        g = self.modfuncs.get((id(f.module), name)) or self.funcs.get(name)
        if g is None:
            raise Unsupported('call to unknown function %s' % name)
        if name in self.callstack:
            raise Unsupported('recursion ' + name)
        self.inlined.add(name)
        outs = self.run_func(g, st, args)
        if len(outs) > 1 and self.pure_like(g):
            groups = {}
            for o in outs:
                mods = any(v is not st.mem.get(ob) for ob, v in o[0].mem.items() if not ob.local)
                key = (mods, cval(o[1]) if mods and z3.is_bv(o[1]) else None)
                groups.setdefault(key, []).append(o)
            if len(groups) > 1 and not any(k[0] for k in groups):
                groups = {0: outs}
            if len({k[1] for k in groups if k != 0}) <= 1:
                groups = {0: outs}
            outs = [x for g2 in groups.values() for x in self.merge_outs(g2, len(st.facts))]
        return outs

    def _ret(self, st):
        return st

    def memcmp(self, st, args, fn):
        nn = cval(args[2])
        if nn is None or nn > 64:
            raise Unsupported('memcmp with symbolic length')
        r = bv(0, 32)
        for i in reversed(range(nn)):
            a = self.load(st, self.padd(args[0], i), ITY(8), fn)
            b = self.load(st, self.padd(args[1], i), ITY(8), fn)
            r = ite(a == b, r, z3.ZeroExt(24, a) - z3.ZeroExt(24, b))
        return [(st, r)]

    def padd(self, p, d):
        d = bv(d, 64) if isinstance(d, int) else d
        return Ptr([(g, o, simp(f + d)) for g, o, f in p.alts])

    def has_handler_call(self, f, seen=None):
        seen = seen or set()
        if f.name in seen:
            return False
        seen.add(f.name)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'call':
                    if ins.x in self.handlers and ins.x not in self.soft:
                        return True
                    g = self.modfuncs.get((id(f.module), ins.x)) or self.funcs.get(ins.x)
                    if g is not None and ins.x not in self.soft and self.has_handler_call(g, seen):
                        return True
        return False

    def pure_like(self, f):
        r = getattr(f, '_pure', None)
        if r is None or r[0] != len(self.handlers):
            f._pure = r = (len(self.handlers), not self.has_handler_call(f))
        return r[1]

    # ---------------- merging
    def merge_outs(self, outs, nbase):
        sts = [s for s, _ in outs]
        m, conds = self.merge_states(sts)
        if m is None:
            return outs
        rv = outs[-1][1]
        if rv is not None:
            for (s, r), c in list(zip(outs, conds))[-2::-1]:
                rv = self.vite(c, r, rv)
        return [(m, rv)]

    def merge_states(self, sts):
        """exact merge of states that share a prefix of facts and are mutually exclusive after it"""
        if len(sts) == 1:
            return sts[0], [TRUE]
        k = 0
        n = min(len(s.facts) for s in sts)
        f0 = sts[0].facts
        while k < n and all(s.facts[k] is f0[k] for s in sts):
            k += 1
        conds = [land(*s.facts[k:]) for s in sts]
        r = State()
        n = min(len(s.ev) for s in sts)
        e = 0
        while e < n and all(s.ev[e] == sts[0].ev[e] for s in sts):
            e += 1
        r.ev = sts[0].ev[:e]
        r.facts = list(f0[:k])
        r.fset = {f.get_id() for f in r.facts}
        # foralls: common ones
        fa = [x for x in sts[0].foralls if all(any(x is y for y in s.foralls) for s in sts)]
        r.foralls = fa
        r.pools = {}
        for s in sts:
            for kd, v in s.pools.items():
                pl = r.pools.setdefault(kd, [])
                for t in v:
                    if not any(t.eq(x) for x in pl):
                        pl.append(t)
        r.assume(lor(*conds))
        for s, c in zip(sts, conds):
            for x in s.foralls:
                if not any(x is y for y in fa):
                    r.add_forall(x[0], (lambda fn, c: lambda *a: imp(c, fn(*a)))(x[1], c))
        # re-instantiate common foralls on the union of pools
        for kinds, fn in fa:
            r._inst(kinds, fn)
        # memory
        objs = set(sts[0].mem)
        for s in sts[1:]:
            objs &= set(s.mem)
        for s in sts:
            for o in s.mem:
                if o not in objs:
                    if o.const:
                        r.mem[o] = s.mem[o]
        for o in objs:
            vs = [s.mem[o] for s in sts]
            if all(v is vs[0] for v in vs):
                r.mem[o] = vs[0]
            elif o.kind == 'buf':
                v = vs[-1]
                for c, x in list(zip(conds, vs))[-2::-1]:
                    v = x if x is v else GIte(c, x, v)
                r.mem[o] = v
            else:
                cells = {}
                keys = set()
                for v in vs:
                    keys |= set(v)
                for key in keys:
                    cs = [v.get(key) for v in vs]
                    sz = [c for c in cs if c is not None][0].size
                    if any(c is not None and c.size != sz for c in cs):
                        raise Unsupported('merge of mixed-size cells')
                    if all(c is not None and c is cs[0] for c in cs):
                        cells[key] = cs[0]
                        continue
                    val, dfd = None, None
                    for cd, c in list(zip(conds, cs))[::-1]:
                        if val is None:
                            if c is None:
                                continue_val = None
                                dfd = FALSE if dfd is None else ite(cd, FALSE, dfd)
                                continue
                            val = c.val
                            dfd = c.dfd if dfd is None else ite(cd, c.dfd, dfd)
                        else:
                            if c is not None:
                                val = self.vite(cd, c.val, val)
                            dfd = ite(cd, c.dfd if c is not None else FALSE, dfd)
                    cells[key] = Cell(sz, val, simp(dfd))
                r.mem[o] = cells
        for g in sts[0].gh:
            vs = [s.gh.get(g) for s in sts]
            if any(v is None for v in vs):
                r.gh[g] = None
                continue
            if all(v is vs[0] for v in vs):
                r.gh[g] = vs[0]
            elif isinstance(vs[0], GF):
                v = vs[-1]
                for c, x in list(zip(conds, vs))[-2::-1]:
                    v = x if x is v else GIte(c, x, v)
                r.gh[g] = v
            else:
                v = vs[-1]
                for c, x in list(zip(conds, vs))[-2::-1]:
                    v = ite(c, x, v)
                r.gh[g] = v
        env = {}
        for key in set.intersection(*[set(s.env) for s in sts]):
            vs = [s.env[key] for s in sts]
            if all(v is vs[0] for v in vs):
                env[key] = vs[0]
                continue
            v = vs[-1]
            try:
                for c, x in list(zip(conds, vs))[-2::-1]:
                    if x is v or x is None:
                        continue
                    v = self.vite(c, x, v)
            except Exception:
                continue
            env[key] = v
        r.env = env
        r.notes = sts[0].notes + ('|merge%d|' % len(sts),)
        return r, conds

    # ---------------- loops
    def static_trip(self, f, L, fr, prev, st):
        """loop with a counter starting at a constant, constant step and a constant bound?"""
        for ins in f.blocks[L.header]:
            if ins.op != 'phi':
                break
            if ins.ty.k != 'i':
                continue
            init = [v for v, b in ins.args if b not in L.blocks]
            if len(init) != 1:
                continue
            iv = self.val(st, fr, ins.ty, init[0])
            if not z3.is_bv(iv) or cval(iv) is None:
                continue
            # step
            ok = False
            for v, b in ins.args:
                if b in L.blocks and v[0] == 'loc':
                    for bb in L.blocks:
                        for x in f.blocks[bb]:
                            if x.res == v[1] and x.op in ('add', 'sub', 'shl', 'lshr') and \
                               x.args[0] == ('loc', ins.res) and x.args[1][0] == 'int':
                                ok = True
            if not ok:
                continue
            for bb in L.blocks:
                for x in f.blocks[bb]:
                    if x.op == 'icmp' and x.args[1][0] == 'int' and x.args[0] == ('loc', ins.res):
                        return True
        return False

    def counted(self, f, L, fr, prev, st, limit=64):
        """an exit decided by constants and one counter that starts at a constant (do-while and post-decrement
        forms included): the number of iterations, found by running the counter, is at most `limit`"""
        defs = {x.res: x for b in L.blocks for x in f.blocks[b] if x.res}
        conds = []
        for b in f.order:
            if b not in L.blocks:
                continue
            x = f.blocks[b][-1]
            if x.op == 'br' and x.args and any(t not in L.blocks for t in x.x):
                conds.append((x.args[0], [t not in L.blocks for t in x.x]))
        if not conds:
            return False

        class No(Exception):
            pass

        def ev(v, ty, phi, cur):
            if v[0] == 'int':
                return v[1]
            if v[0] != 'loc':
                raise No
            if v[1] == phi:
                return cur
            x = defs.get(v[1])
            if x is None:
                c = st.env.get((fr, v[1]))
                c = cval(c) if z3.is_bv(c) else None
                if c is None:
                    raise No
                return c
            w = x.ty.n if x.ty is not None and x.ty.k == 'i' else None
            if x.op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'mul'):
                a, b = (ev(q, x.ty, phi, cur) % (1 << w) for q in x.args[:2])
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'and': lambda: a & b, 'or': lambda: a | b,
                     'xor': lambda: a ^ b, 'mul': lambda: a * b,
                     'shl': lambda: a << b if b < w else 0, 'lshr': lambda: a >> b if b < w else 0}[x.op]()
                return r % (1 << w)
            if x.op in ('zext', 'trunc', 'sext') and x.x.k == 'i':
                a = ev(x.args[0], x.x, phi, cur) % (1 << x.x.n)
                if x.op == 'sext' and a >> (x.x.n - 1):
                    a -= 1 << x.x.n
                return a % (1 << w)
            if x.op == 'icmp' and x.ty.k == 'i':
                a, b = (ev(q, x.ty, phi, cur) % (1 << w) for q in x.args[:2])
                if x.x[0] == 's':
                    a, b = (q - (1 << w) if q >> (w - 1) else q for q in (a, b))
                r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
                return int(r[x.x[-2:]])
            raise No

        for ins in f.blocks[L.header]:
            if ins.op != 'phi':
                break
            if ins.ty.k != 'i':
                continue
            init = [v for v, b in ins.args if b not in L.blocks]
            back = [v for v, b in ins.args if b in L.blocks]
            if len(init) != 1 or len(back) != 1:
                continue
            try:
                c0 = cval(self.val(st, fr, ins.ty, init[0]))
            except Exception:
                continue
            if c0 is None:
                continue
            for cond, out in conds:
                cur = c0 % (1 << ins.ty.n)
                try:
                    for _ in range(limit + 1):
                        if out[0 if ev(cond, None, ins.res, cur) else 1]:
                            return True
                        cur = ev(back[0], ins.ty, ins.res, cur) % (1 << ins.ty.n)
                except No:
                    continue
        return False

    def concrete_guard(self, f, fr, L, prev, st):
        """the loop condition is decided by constants on entry"""
        s = st.copy()
        self.mute += 1
        try:
            self.phis(f, fr, L.header, prev, s)
            for ins in f.blocks[L.header]:
                if ins.op == 'phi':
                    continue
                if ins.op == 'br':
                    if not ins.args:
                        return False
                    return cbool(self.val(s, fr, ITY(1), ins.args[0])) is not None
                if ins.op in ('switch', 'ret', 'unreachable', 'call'):
                    return False
                r = self.simple(f, fr, ins, s)
                if ins.res is not None:
                    s.env[(fr, ins.res)] = r
        finally:
            self.mute -= 1
        return False

    def loop_calls_handler(self, f, L):
        for b in L.blocks:
            for ins in f.blocks[b]:
                if ins.op == 'call':
                    if ins.x in self.handlers and ins.x not in self.soft:
                        return True
                    g = self.modfuncs.get((id(f.module), ins.x)) or self.funcs.get(ins.x)
                    if g is not None and ins.x not in self.soft and self.has_handler_call(g):
                        return True
        return False

    def loop(self, f, fr, L, prev, st):
        mode = None
        if self.loop_hook:
            mode = self.loop_hook(self, f, fr, L, prev, st)
        if mode is None:
            if self.force_cut:
                mode = 'cut'
            elif self.force_unroll:
                mode = 'unroll'
            elif self.loop_calls_handler(f, L):
                mode = 'cut'
            elif self.concrete_guard(f, fr, L, prev, st) or self.static_trip(f, L, fr, prev, st) or \
                    self.counted(f, L, fr, prev, st):
                mode = 'unroll'
            elif self.force_unroll:
                mode = 'unroll'
            else:
                mode = 'cut'
        if mode == 'unroll':
            return self.loop_unroll(f, fr, L, prev, st)
        return self.loop_cut(f, fr, L, prev, st)

    def loop_unroll(self, f, fr, L, prev, st):
        exits, rets = [], []
        cur = [(L.header, prev, st)]
        if not self.mute:
            self.loops_unrolled.append((f.name, L.header))
        for it in range(self.unroll_max + 1):
            starts = []
            for blk, pv, s in cur:
                self.phis(f, fr, blk, pv, s)
                starts.append(s)
            if len(starts) > 1:
                m, _ = self.merge_states(starts)
            else:
                m = starts[0]
            ex, rt, backs = self.region(f, fr, [(L.header, '#enter', m)], L)
            exits += ex
            rets += rt
            if not backs:
                return exits, rets
            cur = backs
        raise Unsupported('loop in %s exceeds the unrolling limit' % f.name)

    def diff_state(self, a, b):
        """locations that differ between header state a and a later state b"""
        d = set()
        for o in a.mem:
            if o not in b.mem or o.const:
                continue
            if a.mem[o] is b.mem[o]:
                continue
            if o.kind == 'buf':
                d.add(('buf', o))
            else:
                for k in set(a.mem[o]) | set(b.mem[o]):
                    x, y = a.mem[o].get(k), b.mem[o].get(k)
                    if x is not None and y is not None and (x is y or (x.val is y.val) or
                                                            (not isinstance(x.val, Ptr) and not isinstance(y.val, Ptr) and x.val.eq(y.val))):
                        continue
                    if isinstance((x or y).val, Ptr):
                        if x is not None and y is not None and [(q[1], q[2]) for q in x.val.alts] == [(q[1], q[2]) for q in y.val.alts]:
                            continue
                    d.add(('cell', o, k, (x or y).size))
        for g in a.gh:
            if b.gh.get(g) is not a.gh[g]:
                if z3.is_expr(a.gh[g]) and a.gh[g].eq(b.gh[g]):
                    continue
                d.add(('ghost', g))
        return d

    def havoc(self, st, mods):
        for m in sorted(mods, key=str):
            if m[0] == 'buf':
                o = m[1]
                st.mem[o] = GUF('hv_' + o.name, [z3.BitVecSort(64)], z3.BitVecSort(8 * o.esize))
            elif m[0] == 'cell':
                _, o, k, size = m
                old = st.mem[o].get(k)
                if old is not None and isinstance(old.val, Ptr):
                    raise Unsupported('loop modifies a pointer in memory')
                if old is None and o.local:
                    # set in a previous iteration or not yet
                    st.setcell(o, k, size, fresh('hv_%s_%d' % (o.name, k), 8 * size), fresh('hvd', 1))
                else:
                    st.setcell(o, k, size, fresh('hv_%s_%d' % (o.name, k), 8 * size),
                               TRUE if (old is not None and z3.is_true(old.dfd)) else fresh('hvd', 1))
            else:
                g = m[1]
                v = st.gh[g]
                if isinstance(v, GF):
                    st.gh[g] = GUF('hv_' + g, *self.ghost_sorts[g])
                else:
                    st.gh[g] = fresh('hv_' + g, 1 if z3.is_bool(v) else v.size())

    def loop_cut(self, f, fr, L, prev, st):
        hdr_phis = [ins for ins in f.blocks[L.header] if ins.op == 'phi']
        entry = st.copy()
        self.phis(f, fr, L.header, prev, entry)
        key = (tuple(self.callstack), f.name, L.header)
        cache = self.houdini_cache.get(key)
        mods = set()
        for m in (cache[0] if cache else ()):
            # the same local of another activation of the function
            if len(m) > 1 and isinstance(m[1], Obj) and m[1] not in entry.mem:
                alt = [o for o in entry.mem if o.local and o.name == m[1].name and o.kind == m[1].kind]
                if len(alt) == 0:
                    continue
                m = (m[0], alt[-1]) + tuple(m[2:])
            mods.add(m)
        dropped = set(cache[1]) if cache else set()
        t_start = time.time()

        def make_header(mods):
            h = entry.copy()
            for ins in hdr_phis:
                if ins.ty.k == 'i':
                    h.env[(fr, ins.res)] = fresh('phi_%s_%s' % (f.name, ins.res[1:]), ins.ty.n)
                else:
                    # pointer induction: same object, symbolic offset
                    p = entry.env[(fr, ins.res)]
                    s = p.single()
                    if s is None or s[1] is None or s[1].kind != 'buf':
                        raise Unsupported('pointer phi in loop of ' + f.name)
                    h.env[(fr, ins.res)] = pobj(s[1], fresh('phip_' + ins.res[1:], 64))
            self.havoc(h, mods)
            # havoc ghost iteration counter
            h.gh['#it'] = fresh('it', 64)
            h.notes = h.notes + ('loop %s:%s' % (f.name, L.header),)
            return h

        def phivals(s):
            return [(ins.res, s.env[(fr, ins.res)]) for ins in hdr_phis]

        outer_it = entry.gh.get('#it')
        entry.gh['#it'] = bv(0, 64)
        objmap = {}
        self.cur_frame = fr

        auto_keys, entry_keys, lost = set(), set(), [False]

        def clauses(s):
            cl = []
            if self.cand_fn is not None:
                self.cur_frame = fr
                cl = list(self.cand_fn(self, f, L, entry, s, phivals(entry), phivals(s)))
            # cheap ones first: if one of them goes, the others are not looked at in that round
            au = self.auto_cands(entry, s, mods, phivals(entry), phivals(s), objmap)
            au += self.bound_cands(f, fr, L, entry, phivals(s))
            auto_keys.update(c.key for c in au)
            cl = au + cl
            if s is entry:
                entry_keys.clear()
                entry_keys.update(c.key for c in cl)
            else:
                # only what is checked at the entry may be assumed, and everything assumed is checked at the back edges
                have = {c.key for c in cl}
                dropped.update(have - entry_keys)
                if entry_keys - have - dropped:
                    dropped.update(entry_keys - have)
                    lost[0] = True
            return cl

        rounds = 0
        establish = True
        while True:
            rounds += 1
            if rounds > 200:
                raise Unsupported('invariant search did not converge in ' + f.name)
            # establish at entry
            if establish:
                for c in clauses(entry):
                    if c.key in dropped:
                        continue
                    if isinstance(c, D):
                        continue    # entry values hold trivially if val is the entry function; checked below
                    if not self.clause_holds(entry, c):
                        dropped.add(c.key)
                for c in clauses(entry):
                    if isinstance(c, D) and c.key not in dropped and not self.clause_holds(entry, c):
                        dropped.add(c.key)
                establish = False
            lost[0] = False
            h = make_header(mods)
            for c in clauses(h):
                if isinstance(c, D) and c.key not in dropped:
                    self.assume_clause(h, c)
            for c in clauses(h):
                if c.key not in dropped and not isinstance(c, D):
                    self.assume_clause(h, c)
            nob, ncut, nunr = len(self.obls), len(self.loops_cut), len(self.loops_unrolled)
            hit = h.gh['#it']
            # the last round (nothing new modified, nothing dropped) is the verification pass itself
            ex, rt, backs = self.region(f, fr, [(L.header, '#enter', h.copy())], L)
            newmods = set()
            for blk, pv, s in backs:
                newmods |= self.diff_state(h, s)
            newmods = {m for m in newmods if not (m[0] == 'ghost' and m[1] == '#it')}
            if not newmods <= mods:
                mods |= newmods
                establish = True
                del self.obls[nob:], self.loops_cut[ncut:], self.loops_unrolled[nunr:]
                continue
            changed = False
            good = []
            for blk, pv, s in backs:
                self.phis(f, fr, blk, pv, s)
                s.gh['#it'] = hit + 1
            for auto, (blk, pv, s) in [(a, b) for a in (True, False) for b in backs]:
                if not auto and changed:
                    break
                for c in clauses(s):
                    if c.key in dropped or (c.key in auto_keys) != auto:
                        continue
                    t0 = time.time()
                    if not self.clause_holds(s, c):
                        if self.trace:
                            print('   houdini drop', f.name, L.header, c.key, flush=True)
                        dropped.add(c.key)
                        changed = True
                    else:
                        good.append((c, time.time() - t0))
            if not changed and not lost[0]:
                break
            del self.obls[nob:], self.loops_cut[ncut:], self.loops_unrolled[nunr:]
        self.houdini_cache[key] = (set(mods), set(dropped))
        if self.trace:
            print('   loop %s:%s mods=%d inv=%s rounds=%d %.1fs' % (f.name, L.header, len(mods),
                  [c.key for c in clauses(entry) if c.key not in dropped], rounds, time.time() - t_start), flush=True)
        if not self.mute:
            self.loops_cut.append((f.name, L.header, [c.key for c in clauses(entry) if c.key not in dropped]))
            for c in clauses(entry):
                if c.key not in dropped:
                    self.oblige_clause(entry.copy(), c, 'loop-entry')
            for c, dt in good:
                o = Obl(self.fname, c.label, 'loop-preserved', c.key)
                o.status, o.backend, o.time = 'proved', 'z3', dt
                self.obls.append(o)
        for lst in (ex,):
            for b, p, s in lst:
                s.gh['#it'] = outer_it
        for s, rv in rt:
            s.gh['#it'] = outer_it
        if len(ex) > 1 and not self.loop_calls_handler(f, L):
            ex = self.merge_exits(f, fr, ex)
        return ex, rt

    def merge_exits(self, f, fr, ex):
        groups = {}
        for b, p, s in ex:
            groups.setdefault((b, p), []).append(s)
        out = []
        for (b, p), ss in groups.items():
            out.append((b, p, self.merge_states(ss)[0] if len(ss) > 1 else ss[0]))
        return out

    def bound_cands(self, f, fr, L, entry, ph):
        """phi bounded by a loop-invariant value it is (transitively) compared with"""
        out = []
        defs = set()
        for b in L.blocks:
            for x in f.blocks[b]:
                if x.res:
                    defs.add(x.res)
        seen = set()
        for b in f.order:
            if b not in L.blocks:
                continue
            for x in f.blocks[b]:
                if x.op == 'icmp' and x.ty.k != 'i':
                    # pointer walked towards an end pointer
                    for op in x.args:
                        X = entry.env.get((fr, op[1])) if op[0] == 'loc' and op[1] not in defs else None
                        X = X.single() if isinstance(X, Ptr) else None
                        if X is None or (op, 0) in seen:
                            continue
                        seen.add((op, 0))
                        for n, (_, v) in enumerate(ph):
                            v = v.single() if isinstance(v, Ptr) else None
                            if v is not None and v[1] is X[1] and X[1] is not None:
                                out.append(C('inv', z3.ULE(v[2], X[2]), 'pphi%d u<= %s' % (n, op[1])))
                    continue
                if x.op != 'icmp' or x.ty.k != 'i' or x.ty.n == 1:
                    continue
                for op in x.args:
                    if op[0] == 'int':
                        X = bv(op[1], x.ty.n)
                    elif op[0] == 'loc' and op[1] not in defs and (fr, op[1]) in entry.env:
                        X = entry.env[(fr, op[1])]
                        if isinstance(X, Ptr) or z3.is_bool(X):
                            continue
                    else:
                        continue
                    kx = (op, x.ty.n)
                    if kx in seen:
                        continue
                    seen.add(kx)
                    nm = '%s' % (op[1],)
                    for n, (_, v) in enumerate(ph):
                        if isinstance(v, Ptr) or z3.is_bool(v):
                            continue
                        w, wx = v.size(), X.size()
                        if w > wx:
                            a, xs, xu = v, z3.SignExt(w - wx, X), z3.ZeroExt(w - wx, X)
                            out.append(C('inv', v <= xs, 'phi%d s<= %s' % (n, nm)))
                            out.append(C('inv', z3.ULE(v, xu), 'phi%d u<= %s' % (n, nm)))
                        else:
                            vs = v if w == wx else z3.SignExt(wx - w, v)
                            out.append(C('inv', vs <= X, 'phi%d s<= %s' % (n, nm)))
                            out.append(C('inv', z3.ULE(vs, X), 'phi%d u<= %s' % (n, nm)))
        return out

    def auto_cands(self, entry, s, mods, ph0, ph, objmap):
        out = []
        for m in sorted(mods, key=str):
            if m[0] == 'cell':
                _, o, k, size = m
                c0, c1 = entry.mem[o].get(k), s.mem[o].get(k)
                if c0 is None or c1 is None or isinstance(c0.val, Ptr):
                    continue
                out.append(C('inv', c0.val == c1.val, 'same:%s+%d' % (o.name, k)))
            elif m[0] == 'ghost':
                g = m[1]
                if not isinstance(entry.gh[g], GF) and s.gh[g] is not None:
                    out.append(C('inv', entry.gh[g] == s.gh[g], 'same:' + g))
        for n, ((nm, a), (_, b)) in enumerate(zip(ph0, ph)):
            if isinstance(a, Ptr):
                sa, sb = a.single(), b.single()
                out.append(C('inv', z3.ULE(sa[2], sb[2]), 'pphi%d>=init' % n))
                it = s.gh['#it']
                for k in (1, 2, 4, 8):
                    out.append(C('inv', sb[2] == simp(sa[2] + k * it), 'pphi%d = init+%d*it' % (n, k)))
                out.append(C('inv', sb[2] == simp(sa[2] - it), 'pphi%d = init-it' % n))
                continue
            if z3.is_bool(a):
                continue
            out.append(C('inv', a <= b, 'phi%d s>= init' % n))
            out.append(C('inv', z3.ULE(a, b), 'phi%d u>= init' % n))
            out.append(C('inv', b <= a, 'phi%d s<= init' % n))
            out.append(C('inv', z3.ULE(b, a), 'phi%d u<= init' % n))
            if a.size() <= 64:
                it = s.gh['#it']
                w = a.size()
                itw = it if w == 64 else z3.Extract(w - 1, 0, it)
                out.append(C('inv', b == a + itw, 'phi%d = init+it' % n))
                out.append(C('inv', b == a - itw, 'phi%d = init-it' % n))
                if w < 64:
                    out.append(C('inv', it == z3.ZeroExt(64 - w, simp(b - a)), 'it = phi%d-init' % n))
                    out.append(C('inv', it == z3.ZeroExt(64 - w, simp(a - b)), 'it = init-phi%d' % n))
        return out
