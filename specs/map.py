"""Contracts of dhara/map.c.

The map is a radix tree threaded through page metadata.  Ghost state, on top of the journal's contracts:
  mv(p, i)   metadata byte i of page p as dhara_journal_read_meta would return it (journal.py: JV.metav)
  data(p)    content of page p (an abstract value; dbyte(data(p), o) is byte o)
  P(t, d)    the page reached for sector t after d levels of the tree, or NONE
  held       user pages between tail and root in blocks that haven't been retired
  rP, rheld, rroot, rcard   the same at the root that recovery returns to
  inB, enumed               pages of the failed block up to that root; those that have been offered for rewriting
  card       number of mapped sectors
"""
import z3
import job
from job import *
from jbase import consts, NONE, P32, P64, B8S, BOOL

META = 132


def mod():
    return module('dhara/map.c')


def has(fn, arity=None):
    f = mod().funcs.get(fn)
    return f is not None and (arity is None or len(f.params) == arity)


def B32(n):
    return bv(n, 32)


def agree(t, u, d):
    """t and u have the same first d bits"""
    return z3.LShR(t ^ u, B32(32) - d) == 0


def bit(d):
    return B32(1) << (B32(31) - d)


def trunc(t, d):
    return t & ~(z3.LShR(B32(0xffffffff), d))


def topbit(t, u, lv):
    """lv is the level at which t and u part (if they do)"""
    return imp(t != u, land(z3.ULT(lv, 32), z3.LShR(t ^ u, B32(31) - lv) == 1))


def word(f, i):
    """little-endian 32-bit word at byte offset i"""
    return z3.Concat(*[f(simp(i + k)) for k in (3, 2, 1, 0)])


def lvoff(j):
    return bv(4, 64) + (z3.ZeroExt(32, j) << 2)


class MV:
    """a view of the ghost state"""

    def __init__(self, E, st):
        self.E = E
        self.gh = dict(st.gh)
        self.memo = {}
        for n in ('P', 'mv', 'data', 'held', 'rP', 'rheld', 'rroot', 'rcard', 'inB', 'enumed', 'card', 'dead', 'enumd', 'anyecc', 'anyfail', 'nmr', 'nap', 'ngc', 'nrec'):
            setattr(self, n, st.gh[n])
        k = E.k
        self.root = st.mem[E.m][k['mj'] + k['off']['root']].val
        self.flags = st.mem[E.m][k['mj'] + k['off']['flags']].val
        self.count = st.mem[E.m][k['mcount']].val
        self.rec = (self.flags & k['DHARA_JOURNAL_F_RECOVERY']) != 0
        self.clean = (self.flags & k['DHARA_JOURNAL_F_DIRTY']) == 0
        self.buf = st.mem[E.buf]

    def id(self, p):
        m = self.memo.get(p.get_id())
        if m is None:
            m = self.memo[p.get_id()] = (p, word(lambda i: self.mv(p, i), bv(0, 64)))
        return m[1]

    def alt(self, p, d):
        k = (p.get_id(), d.get_id())
        m = self.memo.get(k)
        if m is None:
            m = self.memo[k] = (p, d, word(lambda i: self.mv(p, i), lvoff(d)))
        return m[2]

    def M(self, t):
        return self.P(t, B32(32))

    def sib(self, t, j):
        return self.P(t ^ bit(j), j + 1)

    def cookie(self):
        return word(self.buf, bv(16, 64))

    def step(self, Pf, t, d):
        p = Pf(t, d)
        return ite(p == NONE, NONE, ite(((t ^ self.id(p)) & bit(d)) != 0, self.alt(p, d), p))


def userp(p):
    """p is a user page of the chip"""
    return USERP(p)


USERP = z3.Function('userp', P32, BOOL)
CAPF = z3.Function('capacity', P32, P32, P32, P32)      # journal capacity, gc ratio, log2 of pages per block
DBYTE = z3.Function('dbyte', P32, P64, B8S)


def memo2(f):
    m = {}

    def g(a, b):
        k = (a.get_id(), b.get_id())
        if k not in m:
            m[k] = (a, b, f(a, b))
        return m[k][2]
    return g


def inv1(v, Pf, held, root):
    """the tree, seen from sector t at depth d"""
    Pf = memo2(Pf)

    def f(t, d):
        p = Pf(t, d)
        return imp(z3.ULE(d, 32), land(
            p == Pf(trunc(t, d), d),
            imp(d == 0, p == ite(lor(root == NONE, v.id(root) == NONE), NONE, root)),
            imp(z3.ULT(d, 32), Pf(t, d + 1) == v.step(Pf, t, d)),
            imp(p != NONE, land(held(p), userp(p), v.id(p) != NONE, agree(v.id(p), t, d)))))
    return f


def inv2(v, Pf):
    Pf = memo2(Pf)

    def f(t, a, b):
        p = Pf(t, a)
        return imp(land(z3.ULE(a, b), z3.ULE(b, 32)), ite(p != NONE, Pf(v.id(p), b) == p, Pf(t, b) == NONE))
    return f


def invs(v, rec=True):
    out = [C('inv', imp(v.root != NONE, land(v.held(v.root), userp(v.root))), 'the root is held'),
           A('inv', ['sec', 'depth'], inv1(v, v.P, v.held, v.root), 'tree'), A('inv', ['sec', 'depth', 'depth'], inv2(v, v.P), 'tree: paths')]
    if rec:
        g1, g2 = inv1(v, v.rP, v.rheld, v.rroot), inv2(v, v.rP)
        out += [C('inv', imp(v.rec, v.rcard == v.card), 'recovery keeps the size'),
                C('inv', imp(land(v.rec, v.rroot != NONE), land(v.rheld(v.rroot), userp(v.rroot))), 'the recovery root is held'),
                A('inv', ['sec', 'depth'], lambda t, d: imp(v.rec, g1(t, d)), 'recovery tree'),
                A('inv', ['sec', 'depth', 'depth'], lambda t, a, b: imp(v.rec, g2(t, a, b)), 'recovery tree: paths'),
                A('inv', ['sec'], lambda t: imp(v.rec, land((v.M(t) == NONE) == (v.rP(t, B32(32)) == NONE), imp(v.M(t) != NONE, v.data(v.M(t)) == v.data(v.rP(t, B32(32)))))),
                  'recovery tree: same contents')]
    return out


def guarded(a, live, pre=''):
    if isinstance(a, C):
        return C(a.label, imp(live, a.f), pre + a.key)
    return A(a.label, a.kinds, (lambda fn: lambda *q: imp(live, fn(*q)))(a.fn), pre + a.key)


def unreach(v, cur=None):
    """evacuated pages aren't part of the tree any more"""
    def f(t, d):
        x = v.P(t, d)
        e = v.enumed(x) if cur is None else land(v.enumed(x), x != cur)
        return imp(land(v.rec, z3.ULE(d, 32), x != NONE, v.inB(x)), lnot(e))
    return f


def ex_ghosts(ex):
    return list(ex.ghost_sorts)


def enumc(v):
    """what the end of the enumeration means"""
    return A('evac', ['page'], lambda x: imp(land(v.rec, v.enumd, v.inB(x)), v.enumed(x)), 'the enumeration ends when every page has been offered')


class Env:
    def __init__(self, j, ex):
        k = self.k = consts()
        self.job, self.ex = j, ex
        st = self.st = State()
        self.ls8, self.lb8 = fresh('ls', 8), fresh('lb', 8)
        self.nb = fresh('nb', 32)
        self.ls, self.lb = z3.ZeroExt(24, self.ls8), z3.ZeroExt(24, self.lb8)
        st.assume(land(z3.UGE(self.lb8, 1), z3.ULE(self.lb8, 30), z3.UGE(self.ls8, 8), z3.ULE(self.ls8, 30), z3.UGE(self.nb, 2),
                       z3.ULE(self.nb, z3.LShR(bv(0x80000000, 32), self.lb))))
        self.psize = bv(1, 64) << z3.ZeroExt(32, self.ls)
        self.n = Obj('nand', 'cells', k['nsize'])
        st.mem[self.n] = {}
        for f, v in (('log2_page_size', self.ls8), ('log2_ppb', self.lb8), ('num_blocks', self.nb)):
            st.setcell(self.n, k['noff'][f], v.size() // 8, v)
        self.n.const = True
        self.buf = ex.new_obj(st, 'page_buf', nbytes=self.psize)
        self.m = Obj('map', 'cells', k['msize'])
        st.mem[self.m] = {}
        self.jf = ['head', 'tail', 'tail_sync', 'root', 'recover_next', 'recover_root', 'recover_meta', 'bb_current', 'bb_last', 'epoch', 'flags']
        for f in self.jf:
            st.setcell(self.m, k['mj'] + k['off'][f], k['size'][f], fresh(f, 8 * k['size'][f]))
        st.setcell(self.m, k['mj'] + k['off']['log2_ppc'], 1, fresh('lc', 8))
        st.setcell(self.m, k['mj'] + k['off']['nand'], 8, pobj(self.n))
        st.setcell(self.m, k['mj'] + k['off']['page_buf'], 8, pobj(self.buf))
        self.gcr = fresh('gc_ratio', 8 * k['gcsize'])
        st.setcell(self.m, k['mgc'], k['gcsize'], self.gcr)
        st.setcell(self.m, k['mcount'], k['countsize'], fresh('count', 32))
        S = {'P': ([P32, P32], P32), 'rP': ([P32, P32], P32), 'mv': ([P32, P64], B8S), 'data': ([P32], P32), 'held': ([P32], BOOL), 'rheld': ([P32], BOOL),
             'inB': ([P32], BOOL), 'enumed': ([P32], BOOL)}
        ex.ghost_sorts = S
        ex.ghost_kinds = {'P': ('sec', 'depth'), 'rP': ('sec', 'depth'), 'mv': ('page', 'idx'), 'data': ('page',), 'held': ('page',), 'rheld': ('page',),
                          'inB': ('page',), 'enumed': ('page',)}
        for n_, (a, r) in S.items():
            st.gh[n_] = GUF(n_, a, r)
        for n_ in ('rroot', 'rcard', 'card', 'nmr', 'nap', 'ngc', 'nrec', 'tail', 'cur', 'cap_at', 'jcap', 'jsize', 'lastc', 'lastsrc'):
            st.gh[n_] = fresh(n_, 32)
        for n_ in ('dead', 'anyecc', 'anyfail'):
            st.gh[n_] = FALSE
        st.gh['enumd'] = fresh('enumd', 1)
        State.derive, State.base = {}, {}
        ex.join = True
        self.mp = pobj(self.m)
        self.jp = pobj(self.m, k['mj'])
        self.E = {n_: bv(k['DHARA_E_' + n_], 32) for n_ in ('NONE', 'BAD_BLOCK', 'ECC', 'TOO_BAD', 'RECOVER', 'JOURNAL_FULL', 'NOT_FOUND', 'MAP_FULL')}
        st.gh['lasterr'] = fresh('err_none', 32)
        for nm in ('capacity', 'size', 'read_meta', 'peek', 'dequeue', 'clear', 'enqueue', 'copy', 'next_recoverable'):
            ex.handlers['dhara_journal_' + nm] = getattr(self, 'h_' + nm)
        ex.handlers['dhara_nand_read'] = self.h_nread
        se = [ex.funcs['dhara_set_error']] if 'dhara_set_error' in ex.funcs else []
        if se and all(len(f.params) == 2 for f in se):
            ex.handlers['dhara_set_error'] = self.h_set_error
            ex.soft.add('dhara_set_error')
        self.deleting = None
        self.auto = False
        self.inline = set()
        self.targets = []
        self.norec = False
        self.levels = {}
        self.guards = {}
        self.databuf, self.given = None, None
        self.lemma = False
        for t in (0, 32):
            st.add_term('depth', B32(t))

    def V(self, st):
        return MV(self, st)

    # ---- errors
    def errarg(self, st, nullable=True):
        o = Obj('err', 'cells', 4)
        st.mem[o] = {0: Cell(4, fresh('err0', 32))}
        self.err_nonnull = fresh('errnn', 1) if nullable else TRUE
        self.err = o
        return pmaybe(self.err_nonnull, pobj(o)) if nullable else pobj(o)

    def errval(self, st):
        return st.mem[self.err][0].val

    def errv(self, st):
        return ite(self.err_nonnull, self.errval(st), st.gh['lasterr'])

    def h_set_error(self, ex, st, a):
        self.seterr(st, a[0], a[1])
        return [(st, None)]

    def seterr(self, st, p, v):
        st.gh['lasterr'] = v
        for g, o, off in p.alts:
            if o is not None:
                self.ex.store1(st, o, off, v, 4, g, 'sets the error code')

    # ---- journal state changes
    def jset(self, st, f, v):
        k = self.k
        st.setcell(self.m, k['mj'] + k['off'][f], k['size'][f], v)

    def opaque(self, st, skip=('root', 'flags')):
        """the rest of struct dhara_journal"""
        st.gh['jcap'] = fresh('jcap', 32)
        st.gh['jsize'] = fresh('jsize', 32)
        for f in self.jf:
            if f not in skip:
                self.jset(st, f, fresh('j_' + f, 8 * self.k['size'][f]))

    def setflags(self, st, rec=None, clean=None):
        k = self.k
        v0 = self.V(st)
        fl = fresh('flags', 8)
        self.jset(st, 'flags', fl)
        v = self.V(st)
        st.assume(v.rec == (v0.rec if rec is None else rec))
        st.assume(v.clean == (v0.clean if clean is None else clean))

    def isj(self, st, a, what):
        for g, o, off in a.alts:
            if o is not self.m or cval(off) != self.k['mj']:
                self.ex.oblige(st, 'pre', lnot(g), 'pre', what + ": called with the map's journal")

    def h_capacity(self, ex, st, a):
        self.isj(st, a[0], 'capacity')
        return [(st, self.jcap(st))]

    def h_size(self, ex, st, a):
        self.isj(st, a[0], 'size')
        return [(st, self.jsize(st))]

    def h_read_meta(self, ex, st, a):
        self.isj(st, a[0], 'read_meta')
        p = a[1]
        ex.oblige(st.copy(), 'inv', userp(p), 'pre', 'read_meta: of a user page')
        st.gh['nmr'] = st.gh['nmr'] + 1
        mv = st.gh['mv']
        s2 = st.copy()
        ex.buf_write_range(st, a[2], bv(META, 64), lambda i: mv(p, i), 'read_meta')
        junk = GUF('eccjunk', [P64], B8S)
        ex.buf_write_range(s2, a[2], bv(META, 64), lambda i: junk(i), 'read_meta')
        s2.gh['anyecc'] = TRUE
        self.seterr(s2, a[3], self.E['ECC'])
        s2.notes += ('read_meta FAILS',)
        s2.ev += ('ecc',)
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def h_nread(self, ex, st, a):
        for g, o, off in a[0].alts:
            if o is not self.n:
                ex.oblige(st, 'pre', lnot(g), 'pre', "nand_read: called with the map's nand")
        p, off, n = a[1], a[2], a[3]
        ex.oblige(st.copy(), 'inv', userp(p), 'pre', 'nand_read: of a user page')
        ex.oblige(st.copy(), 'safety', land(z3.ULE(n, self.psize), z3.ULE(off, self.psize - n)), 'pre', 'nand_read: within the page')
        d = st.gh['data']
        s2 = st.copy()
        ex.buf_write_range(st, a[4], n, lambda i: DBYTE(d(p), simp(off + i)), 'nand_read')
        junk = GUF('eccjunk', [P64], B8S)
        ex.buf_write_range(s2, a[4], n, lambda i: junk(i), 'nand_read')
        s2.gh['anyecc'] = TRUE
        self.seterr(s2, a[5], self.E['ECC'])
        s2.ev += ('ecc',)
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def h_peek(self, ex, st, a):
        self.isj(st, a[0], 'peek')
        v = self.V(st)
        ex.oblige(st.copy(), 'inv', lnot(v.rec), 'pre', 'peek: not during recovery')
        r = fresh('tail', 32)
        self.opaque(st)
        s2 = st.copy()
        s2.assume(r != NONE)
        s2.assume(userp(r))
        s2.gh['tail'] = r
        st.gh['tail'] = NONE
        st.assume(v.root == NONE)
        st.notes += ('peek: empty',)
        st.ev += ('peek0',)
        out = [(s2, r)]
        if ex.feasible(st, TRUE):
            out.append((st, NONE))
        return out

    def h_dequeue(self, ex, st, a):
        self.isj(st, a[0], 'dequeue')
        v = self.V(st)
        tl = st.gh['tail']
        t, d = fresh('t', 32), fresh('d', 32)
        s2 = st.copy()
        s2.add_term('sec', t)
        s2.add_term('depth', d)
        ex.oblige(st.copy(), 'inv', lnot(v.rec), 'pre', 'dequeue: not during recovery')
        ex.oblige(s2, 'inv', imp(land(z3.ULE(d, 32), tl != NONE), v.P(t, d) != tl), 'pre', 'dequeue: the page removed is not part of the tree')
        st.gh['held'] = gupd(v.held, lambda x: x == tl, lambda x: FALSE)
        self.opaque(st)
        gone = land(v.root == tl, tl != NONE)
        self.jset(st, 'root', ite(gone, NONE, v.root))
        st.gh['tail'] = fresh('tail', 32)
        v1 = self.V(st)
        for a_ in invs(v1, rec=False):
            ex.assume_clause(st, a_)
        return [(st, None)]

    def h_clear(self, ex, st, a):
        self.isj(st, a[0], 'clear')
        v = self.V(st)
        ex.oblige(st.copy(), 'inv', lnot(v.rec), 'pre', 'clear: not during recovery')
        sx = self.deleting
        if sx is not None:
            t, lvs = fresh('t', 32), fresh('lvt', 32)
            s2 = st.copy()
            s2.assume(topbit(t, sx, lvs))
            terms(s2, lvl=[lvs], sec=[t, sx, simp(sx ^ bit(lvs))], depth=[lvs + 1])
            ex.oblige(s2, 'trim', imp(t != sx, v.M(t) == NONE), 'pre', 'clear: only when no other sector is mapped')
            # the number of sectors mapped
            st.add_term('sec', sx)
            st.assume(v.card == ite(v.M(sx) == NONE, bv(0, 32), bv(1, 32)))
        self.opaque(st)
        self.jset(st, 'root', NONE)
        self.setflags(st, clean=FALSE)
        st.gh['P'] = GFn(lambda t, d: NONE)
        st.gh['held'] = GFn(lambda x: FALSE)
        st.gh['card'] = bv(0, 32)
        st.gh['tail'] = NONE
        b0 = v.buf
        st.mem[self.buf] = GFn(lambda i: ite(z3.ULT(i, 20), b0(i), bv(0xff, 8)))
        return [(st, None)]

    def h_next_recoverable(self, ex, st, a):
        self.isj(st, a[0], 'next_recoverable')
        v = self.V(st)
        self.opaque(st)
        s1, s2 = st, st.copy()
        s1.assume(lor(lnot(v.rec), v.enumd))
        s2.assume(land(v.rec, lnot(v.enumd)))
        out = []
        if ex.feasible(s1, TRUE):
            s1.ev += ('rec0',)
            s1.notes += ('next_recoverable: none',)
            out.append((s1, NONE))
        if ex.feasible(s2, TRUE):
            r = fresh('rpage', 32)
            s2.assume(r != NONE)
            s2.assume(userp(r))
            s2.assume(v.inB(r))
            s2.assume(lnot(v.enumed(r)))
            e0 = v.enumed
            s2.gh['enumed'] = gupd(e0, lambda x: x == r, lambda x: TRUE)
            s2.gh['enumd'] = fresh('enumd', 1)
            e1, en, ib = s2.gh['enumed'], s2.gh['enumd'], v.inB
            s2.add_forall(['page'], lambda x: imp(land(en, ib(x)), e1(x)))
            s2.gh['cur'] = r
            s2.notes += ('next_recoverable: page',)
            out.append((s2, r))
        return out

    # ---- appending a page
    def h_enqueue(self, ex, st, a):
        return self.append(ex, st, a[0], a[1], None, a[2], a[3], 'enqueue')

    def h_copy(self, ex, st, a):
        return self.append(ex, st, a[0], None, a[1], a[2], a[3], 'copy')

    def append(self, ex, st, jp, dp, src, mp, ep, what):
        self.isj(st, jp, what)
        outs = []
        s = mp.single()
        if s is None:
            res = []
            for g, o, off in mp.alts:
                if ex.feasible(st, g):
                    s1 = st.copy()
                    s1.assume(g)
                    res += self.append(ex, s1, jp, dp, src, Ptr([(TRUE, o, off)]), ep, what)
            return res
        v = self.V(st)
        filler = s[1] is None
        if filler:
            meta = GFn(lambda i: bv(0xff, 8))
        else:
            ex.deref(st, mp, bv(META, 64), what + ' reads the metadata')
            b0, off = st.mem[s[1]], s[2]
            meta = GFn(lambda i: b0(simp(off + i)))
        if src is None:
            ex_d = dp.single()
            if ex_d is not None and ex_d[1] is None:
                c = fresh('nodata', 32)
            else:
                ex.deref(st, dp, self.psize, what + ' reads a page of data')
                c = self.given if ex_d is not None and ex_d[1] is self.databuf and cval(ex_d[2]) == 0 else fresh('otherdata', 32)
        else:
            c = v.data(src)
            ex.oblige(st.copy(), 'inv', userp(src), 'pre', 'copy: of a user page')
        D = simp(word(meta, bv(0, 64)))
        if not filler and cbool(D == NONE) is None and self.lemma is False:
            # a record without a sector is filler
            res = []
            for g in (D == NONE, D != NONE):
                if ex.feasible(st, g):
                    s1 = st.copy()
                    s1.assume(g)
                    res += self.append1(ex, s1, v, c, meta, D, bool(g.eq(D == NONE)), ep, what, src)
            for n, (s1, r) in enumerate(res):
                if len(res) > 3:
                    s1.ev += (('split', n),)
            return res
        return self.append1(ex, st, v, c, meta, D, filler or cbool(D == NONE) is True, ep, what, src)

    def append1(self, ex, st, v, c, meta, D, filler, ep, what, src):
        t, d, lv = fresh('t', 32), fresh('d', 32), fresh('lv', 32)
        ob = lambda lab, key, f, *terms: self.ob(ex, st, lab, key, f, terms)
        # the record fits the tree
        card0 = st.gh['card']
        st.gh['cap_at'] = self.cap(st)
        if filler:
            ob('inv', what + ': filler only for an empty map', v.P(t, B32(0)) == NONE, ('sec', t))
            newP = v.P
            card = card0
        else:
            ob('inv', what + ': the record names a sector', D != NONE)
            sx = self.deleting
            Aj = word(meta, lvoff(lv))
            ok = imp(z3.ULT(lv, 32), Aj == v.sib(D, lv))
            s2 = st.copy()
            for kd, tm in (('lvl', lv), ('sec', D), ('sec', simp(D ^ bit(lv))), ('depth', lv), ('depth', lv + 1)):
                s2.add_term(kd, tm)
            P0 = v.P
            p0 = fresh('newpage', 32)
            if sx is None or self.lemma == 'plain':
                ex.oblige(s2, 'inv', ok, 'pre', what + ': the record points to the siblings along its path')
                newP = GFn(lambda t, d: ite(agree(t, D, d), p0, P0(t, d)))
                card = card0 + ite(v.M(D) == NONE, bv(1, 32), bv(0, 32))
            else:
                s2.add_term('sec', sx)
                top = lambda j: z3.LShR(sx ^ D, B32(31) - j) == 1
                same = lambda t: z3.ULE((t ^ D) ^ (sx ^ D), (t ^ D) & (sx ^ D))
                ld = fresh('lvd', 32)
                s2.assume(topbit(D, sx, ld))
                terms(s2, lvl=[ld], sec=[sx, simp(sx ^ bit(ld)), simp(sx ^ bit(lv)), simp(D ^ bit(lv))], depth=[ld, ld + 1])
                ex.oblige(s2, 'inv', D != sx, 'pre', what + ': the record names another sector than the one removed')
                hints = []
                if src is not None and self.lemma is False:
                    # the page copied is the subtree next to the sector removed, at level q: it's on the path of its own sector
                    for q in st.pools.get('lvl', []):
                        if z3.is_bv_value(q) or q.eq(lv):
                            continue
                        tl = simp(sx ^ bit(q))
                        a_ = land(z3.ULT(q, 32), src != NONE, src == v.P(tl, q + 1))
                        b_ = land(v.id(src) == D, z3.LShR(D ^ sx, B32(31) - q) == 1)
                        sq = st.focus(sec=[tl], lvl=[q], depth=[simp(q + 1)])
                        if not ex.holds(sq, a_):
                            continue
                        sq.assume(a_)
                        if not ex.holds(sq, b_):
                            continue
                        ly = fresh('x', 32)
                        if not ex.holds(State(), imp(land(z3.ULT(q, 32), topbit(ly, B32(0), ld), ly != 0, z3.LShR(ly, B32(31) - q) == 1), ld == q)):
                            continue
                        h = land(a_, b_, ld == q)
                        s2.assume(h)
                        for r in (lv, B32(32)):
                            f_ = imp(land(z3.ULE(r, 32), z3.UGT(r, q)), P0(D, r) == src)
                            sh = State()
                            for x_ in (a_, b_, inv2(v, P0)(tl, simp(q + 1), r)):
                                sh.assume(x_)
                            if ex.holds(sh, f_):
                                hints.append((r, f_))
                                s2.assume(f_)
                        break
                    if ex.trace and not hints:
                        print('NOHINT', st.pools.get('lvl'))
                for nm, g, f in (('above', z3.ULT(lv, ld), Aj == v.sib(D, lv)), ('at', lv == ld, Aj == NONE), ('below', land(z3.UGT(lv, ld), z3.ULT(lv, 32)), Aj == v.sib(D, lv))):
                    s4 = s2.copy()
                    if nm == 'below' and len(hints) == 2:
                        s4 = st.focus(sec=[D, simp(D ^ bit(lv))], depth=[lv, simp(lv + 1)], lvl=[lv])
                        for f_ in (topbit(D, sx, ld), D != sx, h, hints[0][1]):
                            s4.assume(f_)
                        for f_ in (imp(z3.ULT(lv, 32), trunc(D ^ bit(lv), lv) == trunc(D, lv)),):
                            if ex.holds(State(), f_):
                                s4.assume(f_)
                    s4.assume(g)
                    if nm == 'below' and len(hints) == 2:
                        # the page copied is that of D down to level lv, so its record points to the siblings below
                        s5 = State()
                        for f_ in (hints[0][1], h, topbit(D, sx, ld), D != sx, g, imp(z3.ULT(lv, 32), trunc(D ^ bit(lv), lv) == trunc(D, lv))):
                            s5.assume(f_)
                        i1 = inv1(v, P0, v.held, v.root)
                        for q in (D, simp(D ^ bit(lv))):
                            s5.assume(i1(q, lv))
                        for f_, sq in ((v.sib(D, lv) == v.alt(src, lv), s5), (Aj == v.alt(src, lv), s4)):
                            if ex.holds(sq, f_):
                                s4.assume(f_)
                            elif ex.trace:
                                print('HINT', f_.sexpr()[:200], flush=True)
                    ex.oblige(s4, 'inv', f, 'pre', what + ': the record points to the siblings along its path, but not to the sector removed (%s)' % nm)
                newP = GFn(lambda t, d: ite(agree(t, D, d), p0, ite(same(t), NONE, P0(t, d))))
                s3 = st.copy()
                lvs = fresh('lvt', 32)      # the level at which t parts from the sector removed
                s3.assume(topbit(t, sx, lvs))
                for kd, tm in (('sec', t), ('sec', sx), ('sec', simp(sx ^ bit(lvs))), ('depth', lvs + 1), ('lvl', lvs), ('sec', D)):
                    s3.add_term(kd, tm)
                if self.lemma is False:
                    if ex.oblige(s3, 'inv', imp(land(t != sx, t != D, same(t)), v.M(t) == NONE), 'pre', what + ': no other sector is removed'):
                        st.add_forall(['sec'], lambda t: imp(land(t != sx, t != D, same(t)), P0(t, B32(32)) == NONE))
                    for q, f_ in hints[1:]:
                        st.assume(f_)
                    ex.oblige(s2, 'inv', v.M(sx) != NONE, 'pre', what + ': the sector removed exists')
                card = card0 - ite(v.M(sx) != NONE, bv(1, 32), bv(0, 32)) + ite(v.M(D) == NONE, bv(1, 32), bv(0, 32))
        if filler:
            p0 = fresh('newpage', 32)
        ob('count', what + ': the cookie holds the number of sectors mapped', v.cookie() == card, ('sec', D))
        if not filler and self.lemma is False:
            ob('stay', what + ': recovery keeps the contents', imp(v.rec, land(v.M(D) != NONE, c == v.data(v.M(D)))), ('sec', D))
            if self.deleting is not None:
                ob('stay', what + ': no sector is removed during recovery', imp(v.rec, D == self.deleting))
        # a recovery that might finish with this page
        x = newP(t, d)
        if self.lemma is False:
            s2 = st.copy()
            for kd, tm in (('sec', t), ('depth', d), ('sec', D), ('page', x), ('page', P0(t, d) if not filler else x)):
                s2.add_term(kd, tm)
            s2.assume(x != p0)
            ex.oblige(s2, 'evac', imp(land(v.rec, v.enumd, z3.ULE(d, 32), x != NONE), lnot(v.inB(x))), 'pre',
                      what + ': a recovery that ends has evacuated every page in use')
        st.gh['nap'] = st.gh['nap'] + 1
        # outcomes
        def base(nm):
            s = st.copy()
            self.opaque(s)
            s.notes += (what + ': ' + nm,)
            s.ev += (what + nm,)
            return s
        # 1. success
        s1 = base('ok')
        fin = fresh('fin', 1)
        cp = fresh('cp', 1)
        s1.assume(imp(fin, land(v.rec, v.enumd, cp)))
        self.jset(s1, 'root', p0)
        self.setflags(s1, rec=land(v.rec, lnot(fin)), clean=cp)
        for f_ in (p0 != NONE, userp(p0), lnot(v.held(p0)), imp(v.rec, land(lnot(v.rheld(p0)), lnot(v.inB(p0))))):
            s1.assume(f_)
        held0, rheld0, mv0, data0, inB = v.held, v.rheld, v.mv, v.data, v.inB
        stable = lambda x: land(lor(held0(x), land(v.rec, rheld0(x))), lnot(land(fin, inB(x))))
        nmv, ndt = GUF('mv', [P32, P64], B8S), GUF('data', [P32], P32)
        s1.gh['mv'] = GFn(lambda x, i: ite(x == p0, meta(i), ite(stable(x), mv0(x, i), nmv(x, i))))
        s1.gh['data'] = GFn(lambda x: ite(x == p0, c, ite(lor(held0(x), land(v.rec, rheld0(x))), data0(x), ndt(x))))
        s1.gh['held'] = GFn(lambda x: lor(x == p0, land(held0(x), lnot(land(fin, inB(x))))))
        s1.gh['P'] = newP
        s1.gh['card'] = card
        s1.gh['lastc'], s1.gh['lastsrc'] = c, src if src is not None else NONE
        nb = GUF('pbuf', [P64], B8S)
        b0_ = v.buf
        s1.mem[self.buf] = GFn(lambda i: ite(land(z3.UGE(i, 16), z3.ULT(i, 20)), b0_(i), nb(i)))
        s1.gh['tail'] = ite(lor(v.root != NONE, v.rec), st.gh['tail'], fresh('tail', 32))
        # 2. recovery
        s2 = base('RECOVER')
        newrec = fresh('newrec', 1)
        self.setflags(s2, rec=lor(v.rec, newrec), clean=FALSE)
        # outside recovery: the root stays; within: it returns
        self.jset(s2, 'root', ite(v.rec, v.rroot, v.root))
        s2.assume(imp(land(v.root == NONE, lnot(v.rec)), lnot(newrec)))
        s2.gh['enumed'] = GFn(lambda x: FALSE)
        s2.gh['enumd'] = FALSE
        ib = GUF('inB', [P32], BOOL)
        s2.gh['inB'] = GIte(v.rec, v.inB, ib)
        s2.gh['P'] = GIte(v.rec, v.rP, v.P)
        s2.gh['rP'] = GIte(v.rec, v.rP, v.P)
        s2.gh['held'] = GIte(v.rec, v.rheld, v.held)
        s2.gh['rheld'] = GIte(v.rec, v.rheld, v.held)
        s2.gh['rroot'] = ite(v.rec, v.rroot, v.root)
        s2.gh['card'] = ite(v.rec, v.rcard, card0)
        s2.gh['rcard'] = ite(v.rec, v.rcard, card0)
        hr = s2.gh['held']
        nmv2, ndt2 = GUF('mv', [P32, P64], B8S), GUF('data', [P32], P32)
        s2.gh['mv'] = GFn(lambda x, i: ite(hr(x), mv0(x, i), nmv2(x, i)))
        s2.gh['data'] = GFn(lambda x: ite(lor(hr(x), held0(x)), data0(x), ndt2(x)))
        nb2 = GUF('pbuf', [P64], B8S)
        s2.mem[self.buf] = GFn(lambda i: ite(land(z3.UGE(i, 16), z3.ULT(i, 20)), b0_(i), nb2(i)))
        s2.gh['anyfail'] = TRUE
        s2.gh['nrec'] = v.nrec + 1
        s2.gh['tail'] = ite(lor(v.root != NONE, v.rec), st.gh['tail'], fresh('tail', 32))
        self.seterr(s2, ep, self.E['RECOVER'])
        # 3. refused, or given up after a failure
        s3 = base('stop')
        s3.gh['dead'] = fresh('dead', 1)
        s3.assume(imp(v.dead, s3.gh['dead']))
        s3.gh['anyfail'] = lor(v.anyfail, s3.gh['dead'])
        ev = fresh('stop_err', 32)
        dd = s3.gh['dead']
        nmv3 = GUF('mv', [P32, P64], B8S)
        s3.gh['mv'] = GFn(lambda x, i: ite(land(lnot(dd), lor(held0(x), land(v.rec, rheld0(x)))), mv0(x, i), nmv3(x, i)))
        isecc = ev == self.E['ECC']
        s3.assume(lor(*[ev == self.E[n] for n in ['JOURNAL_FULL', 'TOO_BAD'] + (['ECC'] if src is not None else [])]))
        s3.gh['anyecc'] = lor(v.anyecc, isecc)
        fl = fresh('flags', 8)
        self.jset(s3, 'flags', fl)
        s3.assume(imp(lnot(dd), self.V(s3).rec == v.rec))
        nb3 = GUF('pbuf', [P64], B8S)
        s3.mem[self.buf] = GFn(lambda i: ite(land(z3.UGE(i, 16), z3.ULT(i, 20)), b0_(i), nb3(i)))
        self.seterr(s3, ep, ev)
        out = [(s1, bv(0, 32)), (s2, bv(-1, 32)), (s3, bv(-1, 32))]
        self.last = dict(D=D, p0=p0, newP=newP, v=v)
        if self.lemma is False:
            for s, live in ((s1, TRUE), (s2, TRUE), (s3, lnot(dd))):
                w = self.V(s)
                if s is s1:
                    for tm in (D,):
                        s.add_term('sec', tm)
                for a_ in invs(w):
                    ex.assume_clause(s, guarded(a_, live))
        return out

    # ---- map functions as contracts
    def cap(self, st):
        return CAPF(self.jcap(st), z3.ZeroExt(24, self.gcr8(st)), self.lb)

    def gcr8(self, st):
        return st.mem[self.m][self.k['mgc']].val

    def jcap(self, st):
        if st.gh.get('jcap') is None:
            st.gh['jcap'] = fresh('jcap', 32)
        return st.gh['jcap']

    def jsize(self, st):
        if st.gh.get('jsize') is None:
            st.gh['jsize'] = fresh('jsize', 32)
        return st.gh['jsize']

    def h_mcapacity(self, ex, st, a):
        self.ismap(st, a[0], 'dhara_map_capacity')
        return [(st, self.cap(st))]

    def ismap(self, st, a, what):
        for g, o, off in a.alts:
            if o is not self.m or cval(off) != 0:
                self.ex.oblige(st, 'pre', lnot(g), 'pre', what + ': called with the map')

    def havoc(self, st):
        for n_ in ex_ghosts(self.ex):
            a, r = self.ex.ghost_sorts[n_]
            st.gh[n_] = GUF(n_, a, r)
        for n_ in ('rroot', 'rcard', 'card', 'tail'):
            st.gh[n_] = fresh(n_, 32)
        st.gh['enumd'] = fresh('enumd', 1)
        self.opaque(st)
        self.jset(st, 'root', fresh('root', 32))
        self.jset(st, 'flags', fresh('flags', 8))
        st.setcell(self.m, self.k['mcount'], self.k['countsize'], fresh('count', 32))
        st.mem[self.buf] = GUF('pbuf', [P64], B8S)

    def op(self, st, what, ep, removed=None):
        """the outcomes of an operation that keeps the contents (except that `removed` is unmapped on success)"""
        v0 = self.V(st)
        oks, fl = st.copy(), st.copy()
        for s in (oks, fl):
            self.havoc(s)
        s = oks
        v = self.V(s)
        s.assume(lnot(v.rec))
        self.assume_inv(s, rec=False)
        for f in (lambda t: (v.M(t) == NONE) == lor(v0.M(t) == NONE, FALSE if removed is None else t == removed),
                  lambda t: imp(v.M(t) != NONE, v.data(v.M(t)) == v0.data(v0.M(t)))):
            s.add_forall(['sec'], f)
        s.assume(v.card == v0.card - (bv(0, 32) if removed is None else ite(v0.M(removed) == NONE, bv(0, 32), bv(1, 32))))
        s.gh['anyfail'] = lor(v0.anyfail, fresh('anyfail', 1))
        s.notes += (what + ': ok',)
        s = fl
        w = self.V(s)
        s.gh['dead'] = dd = fresh('dead', 1)
        s.assume(imp(v0.dead, dd))
        live = lnot(dd)
        s.assume(imp(live, w.count == w.card))
        for a in invs(w):
            self.ex.assume_clause(s, guarded(a, live))
        s.add_forall(['sec'], lambda t: imp(live, land((w.M(t) == NONE) == (v0.M(t) == NONE), imp(w.M(t) != NONE, w.data(w.M(t)) == v0.data(v0.M(t))))))
        s.assume(imp(live, w.card == v0.card))
        ev = fresh('op_err', 32)
        s.assume(lor(*[ev == self.E[n] for n in ('JOURNAL_FULL', 'TOO_BAD', 'ECC')]))
        s.gh['anyecc'] = lor(v0.anyecc, ev == self.E['ECC'])
        s.gh['anyfail'] = lor(v0.anyfail, fresh('anyfail', 1))
        self.seterr(s, ep, ev)
        s.notes += (what + ': fails',)
        for n_ in ('nmr', 'nap', 'nrec'):
            for s in (oks, fl):
                s.gh[n_] = fresh(n_, 32)
        return [(oks, bv(0, 32)), (fl, bv(-1, 32))]

    def usable(self, ex, st, what):
        v = self.V(st)
        ex.oblige(st.copy(), 'inv', land(lnot(v.dead), v.count == v.card), 'pre', what + ': the size is the number of mapped sectors')

    def h_trace(self, ex, st, a):
        self.ismap(st, a[0], 'trace_path')
        t, loc, nm, ep = a[1], a[2], a[3], a[4]
        v = self.V(st)
        st.add_term('sec', t)
        n = fresh('nmr', 32)
        st.assume(z3.ULE(n - st.gh['nmr'], 33))
        st.gh['nmr'] = n
        g_ = GUF('path', [P64], B8S)
        out = []
        ok, nf, ec = st, st.copy(), st.copy()
        dst = Ptr([q for q in nm.alts if q[1] is not None])
        j_ = GUF('path_partial', [P64], B8S)
        for s, fn in ((ok, g_), (nf, g_), (ec, j_)):
            self.ex.buf_write_range(s, dst, bv(META, 64), fn, 'trace_path: new_meta')
        for s in (ok, nf):
            s.assume(word(g_, bv(0, 64)) == t)
            s.add_forall(['lvl'], lambda lv: imp(z3.ULT(lv, 32), word(g_, lvoff(lv)) == v.sib(t, lv)))
        ok.assume(v.M(t) != NONE)
        for g, o, off in loc.alts:
            if o is not None:
                self.ex.store1(ok, o, off, v.M(t), 4, g, 'trace_path: loc')
        ok.notes += ('trace_path: found',)
        if ex.feasible(ok, TRUE):
            out.append((ok, bv(0, 32)))
        nf.assume(v.M(t) == NONE)
        self.seterr(nf, ep, self.E['NOT_FOUND'])
        nf.notes += ('trace_path: not found',)
        if ex.feasible(nf, TRUE):
            out.append((nf, bv(-1, 32)))
        ec.gh['anyecc'] = TRUE
        self.seterr(ec, ep, self.E['ECC'])
        ec.notes += ('trace_path: ECC',)
        out.append((ec, bv(-1, 32)))
        return out

    def h_try_recover(self, ex, st, a):
        self.ismap(st, a[0], 'try_recover')
        cause, ep = a[1], a[2]
        out = []
        s1, s2 = st.copy(), st.copy()
        s1.assume(cause != self.E['RECOVER'])
        s2.assume(cause == self.E['RECOVER'])
        if ex.feasible(s1, TRUE):
            self.seterr(s1, ep, cause)
            out.append((s1, bv(-1, 32)))
        if ex.feasible(s2, TRUE):
            v = self.V(s2)
            self.usable(ex, s2, 'try_recover')
            ex.oblige_clause(s2.copy(), A('evac', ['sec', 'depth'], unreach(v), 'try_recover: pages not offered yet may be in use'), 'pre')
            ex.oblige_clause(s2.copy(), guarded(enumc(v), TRUE, 'try_recover: '), 'pre')
            for s, r in self.op(s2, 'try_recover', ep):
                s.gh['ngc'] = bv(0, 32)
                out.append((s, r))
        return out

    def h_gc(self, ex, st, a):
        self.ismap(st, a[0], 'dhara_map_gc')
        v = self.V(st)
        ex.oblige(st.copy(), 'inv', lnot(v.rec), 'pre', 'dhara_map_gc: not during recovery')
        self.usable(ex, st, 'dhara_map_gc')
        if self.auto:
            n, r = st.gh['ngc'], z3.ZeroExt(24, self.gcr8(st))
            ex.oblige(st.copy(), 'work', z3.ULE(n, r), 'pre', 'at most gc_ratio+1 collections before a page is written')
            ex.oblige(st.copy(), 'work', imp(n == 0, z3.UGE(self.jsize(st), self.cap(st))), 'pre', 'collects only when the journal has grown to the capacity')
        st.gh['ngc'] = st.gh['ngc'] + 1
        return self.op(st, 'gc', a[1])

    def h_trim(self, ex, st, a):
        self.ismap(st, a[0], 'dhara_map_trim')
        v = self.V(st)
        ex.oblige(st.copy(), 'inv', land(lnot(v.rec), a[1] != NONE), 'pre', 'dhara_map_trim: not during recovery')
        self.usable(ex, st, 'dhara_map_trim')
        st.add_term('sec', a[1])
        return self.op(st, 'trim', a[2], a[1])

    def h_try_delete(self, ex, st, a):
        self.ismap(st, a[0], 'try_delete')
        v0 = self.V(st)
        t, ep = a[1], a[2]
        ex.oblige(st.copy(), 'inv', land(lnot(v0.rec), t != NONE), 'pre', 'try_delete: not during recovery')
        self.usable(ex, st, 'try_delete')
        st.add_term('sec', t)
        s = st.copy()
        outs = self.op(st, 'try_delete', ep, t)
        self.havoc(s)
        w = self.V(s)
        s.assume(land(lnot(w.dead), lnot(w.enumd), w.count == w.card, w.card == v0.card))
        for a_ in invs(w):
            ex.assume_clause(s, a_)
        s.add_forall(['sec'], same_contents(v0, w))
        s.gh['enumed'] = GFn(lambda x: FALSE)
        s.gh['anyfail'] = TRUE
        s.gh['nrec'] = v0.nrec + 1
        self.seterr(s, ep, self.E['RECOVER'])
        s.notes += ('try_delete: RECOVER',)
        return outs + [(s, bv(-1, 32))]

    def use(self, *names):
        tab = {'try_delete': (self.h_try_delete, 3), 'trace_path': (self.h_trace, 5), 'try_recover': (self.h_try_recover, 3), 'dhara_map_gc': (self.h_gc, 2), 'dhara_map_trim': (self.h_trim, 3)}
        for n in names:
            if n in self.inline:
                continue
            if has(n, tab[n][1]):
                self.ex.handlers[n] = tab[n][0]

    def ob(self, ex, st, lab, key, f, terms=()):
        s2 = st.copy()
        for kd, t in terms:
            s2.add_term(kd, t)
        return ex.oblige(s2, lab, f, 'pre', key)

    def assume_inv(self, st, rec=True):
        v = self.V(st)
        st.assume(v.count == v.card)
        # the number of mapped sectors (each has a page of its own: less than 2^32)
        st.add_forall(['sec'], lambda t: imp(v.card == 0, v.M(t) == NONE))
        for a in invs(v, rec):
            self.ex.assume_clause(st, a)

    def check_inv(self, st, what, live=TRUE, rec=True, depth=True):
        v = self.V(st)
        ex = self.ex
        ex.oblige(st.copy(), 'count', imp(live, v.count == v.card), 'post', what + ': the size is the number of mapped sectors')
        for a in invs(v, rec):
            ex.oblige_clause(st.copy(), guarded(a, live, what + ': '), 'post')


def setup(j):
    ex = j.executor(mod())
    E = Env(j, ex)
    return ex, E


# ------------------------------------------------------------------ lemma: a well-formed record keeps the tree well-formed
def job_append_lemma(j, kind='plain'):
    ex, E = setup(j)
    st = E.st
    E.assume_inv(st)
    v = E.V(st)
    meta = ex.new_obj(st, 'meta', nbytes=bv(META, 64))
    E.lemma = kind
    ep = E.errarg(st)
    j.cover('map invariant satisfiable with a tree', st, v.root != NONE)
    if kind == 'delete':
        E.deleting = fresh('removed', 32)
    src = fresh('src', 32)
    mute = ex.oblige
    ex.oblige = lambda *a, **k: True
    # the handler's preconditions, assumed for every level (they're obligations at every call)
    b0 = st.mem[meta]
    D = word(b0, bv(0, 64))
    st.assume(D != NONE)
    Aw = lambda lv: word(b0, lvoff(lv))
    sx = E.deleting
    if sx is None:
        st.add_forall(['lvl'], lambda lv: imp(z3.ULT(lv, 32), Aw(lv) == v.sib(D, lv)))
    else:
        top = lambda q: z3.LShR(sx ^ D, B32(31) - q) == 1
        same = lambda t: z3.ULE((t ^ D) ^ (sx ^ D), (t ^ D) & (sx ^ D))
        st.assume(D != sx)
        st.add_forall(['lvl'], lambda lv: imp(z3.ULT(lv, 32), Aw(lv) == ite(top(lv), NONE, v.sib(D, lv))))
    outs = E.append(ex, st, E.jp, None, src, pobj(meta), ep, 'copy')
    ex.oblige = mute
    for s, r in outs[:1]:
        w = E.V(s)
        t, d, b = fresh('t', 32), fresh('d', 32), fresh('b', 32)
        newP = w.P
        # checked at the call: evacuation, and the contents are kept during recovery
        cD = w.data(E.last['p0'])
        s.assume(imp(v.rec, land(v.M(D) != NONE, cD == v.data(v.M(D)))))
        if kind == 'delete':
            s.assume(lnot(v.rec))
        s.add_forall(['sec', 'depth'], lambda t_, d_: imp(land(v.rec, v.enumd, z3.ULE(d_, 32), newP(t_, d_) != NONE, newP(t_, d_) != E.last['p0']), lnot(v.inB(newP(t_, d_)))))
        for kd, tm in (('sec', t), ('sec', D), ('sec', simp(D ^ bit(d))), ('depth', d), ('depth', d + 1), ('lvl', d), ('depth', b), ('sec', v.id(v.P(t, d))), ('sec', trunc(t, d))):
            s.add_term(kd, tm)
        w = E.V(s)
        f1 = inv1(w, w.P, w.held, w.root)(t, d)
        rec = imp(lnot(w.rec), TRUE)
        p = w.P(t, d)
        dl = z3.ULE(d, 32)
        ex.oblige(s.copy(), 'inv', imp(dl, p == w.P(trunc(t, d), d)), 'lemma', kind + ': a path depends on the prefix of the sector only')
        ex.oblige(s.copy(), 'inv', imp(d == 0, p == ite(lor(w.root == NONE, w.id(w.root) == NONE), NONE, w.root)), 'lemma', kind + ': a path starts at the root')
        ex.oblige(s.copy(), 'inv', imp(z3.ULT(d, 32), w.P(t, d + 1) == w.step(w.P, t, d)), 'lemma', kind + ': a path follows the alternate pages')
        ex.oblige(s.copy(), 'inv', imp(land(dl, p != NONE), land(w.held(p), userp(p), w.id(p) != NONE, agree(w.id(p), t, d))), 'lemma',
                  kind + ': every page on a path is held and has the prefix')
        ex.oblige(s.copy(), 'inv', imp(dl, imp(land(z3.ULE(d, b), z3.ULE(b, 32), p == NONE), w.P(t, b) == NONE)), 'lemma', kind + ': a path that ends stays ended')
        ex.oblige(s.copy(), 'inv', imp(land(z3.ULE(d, b), z3.ULE(b, 32)), imp(p != NONE, w.P(w.id(p), b) == p)), 'lemma', kind + ': a page is its own sector\'s')
        for a in invs(w):
            if a.key not in ('tree', 'tree: paths'):
                ex.oblige_clause(s.copy(), a, 'lemma')
    # failure: the tree of the recovery root
    for n, (s, r) in enumerate(outs[1:]):
        w = E.V(s)
        live = lnot(w.dead)
        for a in invs(w):
            ex.oblige_clause(s.copy(), guarded(a, live, 'failed append %d: ' % n), 'lemma')


def job_dequeue_lemma(j):
    ex, E = setup(j)
    st = E.st
    E.assume_inv(st)
    v = E.V(st)
    st.assume(lnot(v.rec))
    tl = st.gh['tail']
    st.add_forall(['sec', 'depth'], lambda t, d: imp(land(z3.ULE(d, 32), tl != NONE), v.P(t, d) != tl))
    mute = ex.oblige
    ex.oblige = lambda *a, **k: True
    af = State.add_forall
    State.add_forall = lambda *a, **k: None
    (s, _), = E.h_dequeue(ex, st, [E.jp])
    State.add_forall = af
    ex.oblige = mute
    for a in invs(E.V(s), rec=False):
        ex.oblige_clause(s.copy(), a, 'lemma')
    s = E.st


# ------------------------------------------------------------------ loops
def bufs132(s):
    return [(o, f) for o, f in s.mem.items() if o.kind == 'buf' and o.esize == 1 and cval(o.size if not isinstance(o.size, int) else bv(o.size, 64)) == META]


def phi32(ph):
    return [(n, b) for n, (_, b) in enumerate(ph) if z3.is_bv(b) and b.size() == 32]


def islevel(E, ex, f, L, entry, n, a0):
    """a variable that starts as a tree level"""
    key = (f.name, L.header, n)
    if key not in E.levels:
        c = cval(a0)
        E.levels[key] = (c is not None and (c <= 32 or c >= 2**32 - 2)) or (c is None and ex.holds(entry, lor(z3.ULE(a0, 32), a0 == NONE)))
    return E.levels[key]


def meta_cands(E, ex, f, L, entry, s, ph0, ph):
    """loops over the levels of a record"""
    out = []
    P0 = dict(phi32(ph0))
    P = [(n, a) for n, a in phi32(ph) if islevel(E, ex, f, L, entry, n, P0[n])]
    v = E.V(s)
    bs, es = bufs132(s), dict(bufs132(entry))
    Z = lambda q: bv(0, 64) if q is None else lvoff(q)
    for n, a in P:
        s.add_term('lvl', a)
        for o, b in bs:
            nm = '%s phi%d' % (o.name, n)
            i0 = P0[n]
            gd = E.guards.get(o, TRUE)
            out.append(A('inv', ['lvl'], lambda q, b=b, a=a: imp(land(z3.ULT(q, 32), q > a), word(b, lvoff(q)) == NONE), nm + ': none above'))
            for t in E.targets:
                out.append(A('inv', ['lvl'], lambda q, b=b, a=a, t=t, gd=gd: imp(land(gd, z3.ULT(q, 32), z3.ULT(q, a)), word(b, lvoff(q)) == v.sib(t, q)), nm + ': siblings below'))
            for o2, b2 in bs:
                if o2 is not o:
                    out.append(A('inv', ['lvl'], lambda q, b=b, b2=b2, a=a, i0=i0: imp(land(z3.ULT(q, 32), z3.ULT(q, a), z3.UGE(q, i0)), word(b, lvoff(q)) == word(b2, lvoff(q))),
                                 nm + ': copied from ' + o2.name))
            out.append(A('inv', ['lvl'], lambda q, b=b, o=o, a=a, i0=i0: imp(land(z3.ULT(q, 32), lor(z3.UGE(q, a), z3.ULT(q, i0))), word(b, lvoff(q)) == word(es[o], lvoff(q))),
                         nm + ': rest unchanged'))
    for o, b in bs:
        out.append(C('inv', word(b, bv(0, 64)) == word(es[o], bv(0, 64)), o.name + ': same sector'))
        for t in E.targets:
            out.append(C('inv', imp(E.guards.get(o, TRUE), word(b, bv(0, 64)) == t), o.name + ': sector'))
    return out


def tree_cands(E, ex, f, L, entry, s, ph0, ph):
    """walking down the tree"""
    out = []
    P = phi32(ph)
    v = E.V(s)
    e = E.V(entry)
    bs = bufs132(s)
    P0 = dict(phi32(ph0))
    lev = [(n, a) for n, a in P if islevel(E, ex, f, L, entry, n, P0[n])]
    P = [x for x in P if x not in lev]
    for n, a in lev:
        s.add_term('depth', a)
        s.add_term('depth', a + 1)
        for t in E.targets:
            s.add_term('sec', simp(t ^ bit(a)))
            out.append(C('inv', v.P(t, a) == NONE, 'phi%d: ended' % n))
            for m, b in P:
                if True:
                    out.append(C('inv', lor(a == P0[n], v.id(b) != NONE), 'phi%d phi%d: of a sector' % (n, m)))
                    out.append(C('inv', v.P(t, a) == ite(v.id(b) == NONE, NONE, b), 'phi%d phi%d: on the path' % (n, m)))
            out.append(C('inv', imp(v.P(t, B32(32)) != NONE, v.P(t, a) != NONE), 'phi%d: reached' % n))
        out.append(C('inv', z3.ULE(v.nmr - E.nmr0, a + 1), 'phi%d: records read' % n))
        out.append(C('inv', z3.ULE(v.nmr - E.nmr0, a), 'phi%d: records read (0)' % n))
        out.append(C('inv', z3.ULE(a, 32), 'phi%d <= 32' % n))
    for n, a in P:
        out.append(C('inv', land(a != NONE, userp(a), v.held(a)), 'phi%d: a held page' % n))
        for o, b in bs:
            out.append(C('inv', word(b, bv(0, 64)) == v.id(a), '%s: sector of phi%d' % (o.name, n)))
            out.append(A('inv', ['lvl'], lambda q, b=b, a=a: imp(z3.ULT(q, 32), word(b, lvoff(q)) == v.alt(a, q)), '%s: record of phi%d' % (o.name, n)))
    return out


def op_cands(E, s0, ex, f, L, entry, s, ph0, ph):
    """retry loops"""
    v0, v, e = E.V(s0), E.V(s), E.V(entry)
    out = [C('inv', f_, k_) for k_, f_ in (('size', v.count == v.card), ('size unchanged', v.card == v0.card), ('not in recovery', lnot(v.rec)), ('usable', lnot(v.dead)),
                                           ('collections', v.ngc == e.ngc + z3.Extract(31, 0, s.gh['#it'])), ('no collection', v.ngc == 0), ('nothing before the first', imp(s.gh['#it'] == 0, land(s.gh['jsize'] == entry.gh['jsize'], s.gh['jcap'] == entry.gh['jcap']))),
                                           ('untouched', imp(lnot(v.anyfail), land(v.nap == v0.nap, v.nmr == v0.nmr))),
                                           ('failures', z3.ULE(v.nap - v0.nap, z3.Extract(31, 0, s.gh['#it']))),
                                           ('all fine', v.anyecc == e.anyecc))]
    for n, a in phi32(ph):
        out += [C('inv', v.nrec - v0.nrec == a, 'phi%d counts the restarts' % n), C('inv', z3.ULE(v.nrec - v0.nrec, a), 'phi%d bounds the restarts' % n)]
    out += invs(v, rec=not E.norec)
    out += [A('inv', ['sec'], lambda t: land((v.M(t) == NONE) == (v0.M(t) == NONE), imp(v.M(t) != NONE, v.data(v.M(t)) == v0.data(v0.M(t)))), 'contents unchanged'),
            ] + ([] if E.norec else [A('inv', ['sec', 'depth'], unreach(v), 'offered pages are not in use'), enumc(v)])
    return out


def cands(E, s0):
    def fn(ex, f, L, entry, s, ph0, ph):
        if not ex.loop_calls_handler(f, L):
            return meta_cands(E, ex, f, L, entry, s, ph0, ph) + tree_cands(E, ex, f, L, entry, s, ph0, ph)
        if calls_only(ex, f, L.blocks, {'dhara_journal_read_meta'}):
            return meta_cands(E, ex, f, L, entry, s, ph0, ph) + tree_cands(E, ex, f, L, entry, s, ph0, ph)
        return op_cands(E, s0, ex, f, L, entry, s, ph0, ph)
    return fn


def calls_only(ex, f, blocks, names, seen=None):
    seen = set() if seen is None else seen
    for b in blocks:
        for ins in f.blocks[b]:
            if ins.op == 'call':
                if ins.x in ex.handlers:
                    if ins.x not in names and ins.x not in ex.soft:
                        return False
                    continue
                g = ex.modfuncs.get((id(f.module), ins.x)) or ex.funcs.get(ins.x)
                if g is not None and ins.x not in seen:
                    seen.add(ins.x)
                    if not calls_only(ex, g, g.blocks, names, seen):
                        return False
    return True


# ------------------------------------------------------------------ trace_path
def terms(s, **kw):
    for kd, l in kw.items():
        for t in l:
            s.add_term(kd, t)


def derive(E):
    State.base = {'sec': E.targets}
    State.derive = {'lvl': lambda q: [('sec', simp(t ^ bit(q))) for t in E.targets] + [('depth', q), ('depth', simp(q + 1))]}


def job_trace_path(j, labels=None):
    if not has('trace_path', 5):
        return
    ex, E = setup(j)
    if labels is not None:
        part(ex, labels)
    st = E.st
    E.assume_inv(st, rec=False)
    v0 = E.V(st)
    t, lv = fresh('target', 32), fresh('lv', 32)
    E.targets = [t]
    derive(E)
    E.nmr0 = v0.nmr
    terms(st, sec=[t, simp(t ^ bit(lv))], lvl=[lv], depth=[lv, lv + 1])
    mb = ex.new_obj(st, 'new_meta', nbytes=bv(META, 64))
    E.guards[mb] = nm = fresh('new_metann', 1)
    loc = Obj('loc', 'cells', 4)
    st.mem[loc] = {0: Cell(4, fresh('loc0', 32))}
    ln = fresh('locnn', 1)
    ep = E.errarg(st)
    j.cover('trace_path: a mapped sector', st, v0.M(t) != NONE)
    j.cover('trace_path: an unmapped sector in a nonempty map', st, land(v0.M(t) == NONE, v0.root != NONE))
    sibling_lemma(E, ex, st, t)
    s0 = st.copy()
    ex.cand_fn = cands(E, s0)
    ex.loop_hook = cut_levels
    for s, r in ex.run('trace_path', st, [E.mp, t, pmaybe(ln, pobj(loc)), pmaybe(nm, pobj(mb)), ep]):
        v = E.V(s)
        post = lambda lab, key, f: ex.oblige(s.copy(), lab, f, 'post', 'trace_path: ' + key)
        ok, fail = r == 0, r == bv(-1, 32)
        isecc = v.anyecc
        b = s.mem[mb]
        post('ryw', 'returns 0 or -1', lor(ok, fail))
        post('ryw', 'succeeds exactly when the sector is mapped', imp(lnot(isecc), ok == (v0.M(t) != NONE)))
        post('ryw', 'gives the page of the sector', imp(land(ok, ln), s.mem[loc][0].val == v0.M(t)))
        post('ryw', 'new record: sector', imp(land(lnot(isecc), nm), word(b, bv(0, 64)) == t))
        post('ryw', 'new record: siblings', imp(land(lnot(isecc), nm, z3.ULT(lv, 32)), word(b, lvoff(lv)) == v0.sib(t, lv)))
        post('err', 'fails if a record cannot be read', imp(isecc, fail))
        post('err', 'error code', imp(land(fail, E.err_nonnull), E.errval(s) == ite(isecc, E.E['ECC'], E.E['NOT_FOUND'])))
        post('err', 'no error code on success', imp(ok, E.errval(s) == E.errval(s0)))
        post('work', 'reads at most 33 records', z3.ULE(v.nmr - v0.nmr, 33))
        post('inv', 'changes nothing', land(v.count == v0.count, v.root == v0.root, v.flags == v0.flags, v.nap == v0.nap))


def sibling_lemma(E, ex, st, t):
    """the sibling at a level, read off the page the path goes through: a consequence of the tree invariant, proved and then used"""
    v = E.V(st)

    def f(q):
        p = v.P(t, q)
        return imp(z3.ULT(q, 32), v.sib(t, q) == ite(p == NONE, NONE, ite(((t ^ v.id(p)) & bit(q)) != 0, p, v.alt(p, q))))
    ex.oblige_clause(st, A('inv', ['lvl'], f, 'siblings hang off the path'), 'lemma', 'the siblings of a sector')
    st.add_forall(['lvl'], f)


def cut_levels(ex, f, fr, L, prev, st):
    return 'cut' if ex.loop_calls_handler(f, L) else None


# ------------------------------------------------------------------ operations
def same_contents(v0, v, but=None):
    def f(t):
        g = land((v.M(t) == NONE) == (v0.M(t) == NONE), imp(v.M(t) != NONE, v.data(v.M(t)) == v0.data(v0.M(t))))
        return g if but is None else imp(t != but, g)
    return f


class Op:
    """verify one operation"""

    def __init__(self, j, name, nargs, rec=False, uses=('trace_path', 'try_recover', 'try_delete', 'dhara_map_gc', 'dhara_map_trim'), labels=None):
        self.j, self.name = j, name
        self.ex, self.E = setup(j)
        ex, E = self.ex, self.E
        if labels is not None:
            part(ex, labels)
        E.use(*[u for u in uses if u != name])
        if name != 'dhara_map_capacity':
            ex.handlers['dhara_map_capacity'] = E.h_mcapacity
        self.st = E.st
        E.assume_inv(self.st, rec=rec)
        self.v0 = E.V(self.st)
        E.norec = not rec
        if not rec:
            self.st.assume(lnot(self.v0.rec))
        E.nmr0 = self.v0.nmr
        self.st.assume(self.v0.ngc == 0)

    def run(self, *args):
        ex, E = self.ex, self.E
        derive(E)
        self.ep = E.errarg(self.st)
        self.s0 = self.st.copy()
        ex.cand_fn = cands(E, self.s0)
        ex.loop_hook = None if ex.force_cut else cut_levels
        self.err0 = E.errval(self.st)
        for s, r in ex.run(self.name, self.st, [E.mp] + list(args) + [self.ep]):
            self.s, self.r = s, r
            self.v = E.V(s)
            self.live = lnot(self.v.dead)
            yield s, r

    def post(self, lab, key, f):
        self.ex.oblige(self.s.copy(), lab, f, 'post', self.name + ': ' + key)

    def all(self, lab, kinds, fn, key, *terms_):
        s = self.s.copy()
        for kd, t in terms_:
            s.add_term(kd, t)
        sx = self.E.deleting
        if sx is not None and kinds == ['sec']:
            t, lvs = fresh('sk_sec', 32), fresh('lvt', 32)
            s.assume(topbit(t, sx, lvs))
            terms(s, sec=[t, sx], lvl=[lvs])
            self.ex.oblige(s, lab, fn(t), 'post', self.name + ': ' + key)
            return
        self.ex.oblige_clause(s, A(lab, kinds, fn, self.name + ': ' + key), 'post')

    def errors(self, allowed, full=None):
        E, r = self.E, self.r
        ev = E.errval(self.s)
        nn = E.err_nonnull
        self.post('err', 'returns 0 or -1', lor(r == 0, r == bv(-1, 32)))
        self.post('err', 'an uncorrectable read fails the operation', imp(self.v.anyecc, r != 0))
        self.post('err', 'fails with a documented error', imp(land(r != 0, nn), lor(*[ev == E.E[n] for n in allowed])))
        self.post('err', 'reports uncorrectable reads as such', imp(land(r != 0, nn), (ev == E.E['ECC']) == self.v.anyecc))
        self.post('err', 'no error code on success', imp(r == 0, ev == self.err0))

    def keeps(self, lab='stay', but=None, fail=True):
        """contents after success / failure"""
        v0, v = self.v0, self.v
        g = same_contents(v0, v, but)
        b = () if but is None else (('sec', but),)
        self.all(lab, ['sec'], lambda t: imp(self.r == 0, g(t)), 'the contents of ' + ('all' if but is None else 'all other') + ' sectors stay', *b)
        if fail:
            h = same_contents(v0, v)
            self.all('err', ['sec'], lambda t: imp(land(self.r != 0, self.live), h(t)), 'failure leaves the contents alone')

    def inv(self, clean=None):
        E, s, v, r = self.E, self.s, self.v, self.r
        self.post('inv', 'leaves the map usable', imp(r == 0, land(lnot(v.rec), lnot(v.dead))))
        E.check_inv(s, self.name, live=lor(r == 0, self.live))

    def size(self, d=None):
        """size: card is the ghost number of mapped sectors"""
        v0, v, r = self.v0, self.v, self.r
        self.post('count', 'size afterwards', imp(r == 0, v.count == v0.count + (bv(0, 32) if d is None else d)))
        self.post('count', 'failure leaves the size alone', imp(land(r != 0, self.live), v.count == v0.count))


def part(ex, labels):
    ob, oc = ex.oblige, ex.oblige_clause
    labels = set(labels)
    ex.oblige = lambda st, label, goal, kind, desc='', cases=None: ob(st, label, goal, kind, desc, cases) if kind != 'post' or label in labels else True
    ex.oblige_clause = lambda st, cl, kind, view=None: oc(st, cl, kind, view) if kind != 'post' or cl.label in labels else True


OPERR = ('JOURNAL_FULL', 'TOO_BAD', 'ECC')


def job_try_recover(j, labels=None):
    if not has('try_recover', 3):
        return
    o = Op(j, 'try_recover', 3, rec=True, uses=('trace_path',), labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    cause = fresh('cause', 32)
    st.add_forall(['sec', 'depth'], unreach(v0))
    ex.assume_clause(st, enumc(v0))
    j.cover('try_recover: in recovery with pages in use to be moved', st, land(cause == E.E['RECOVER'], v0.rec, v0.inB(v0.M(B32(7))), v0.M(B32(7)) != NONE))
    rec = cause == E.E['RECOVER']
    for s, r in o.run(cause):
        v = o.v
        ev = E.errval(s)
        o.post('err', 'returns 0 or -1', lor(r == 0, r == bv(-1, 32)))
        o.post('err', 'passes other errors on', imp(lnot(rec), land(r != 0, imp(E.err_nonnull, ev == cause), v.nap == v0.nap, v.nmr == v0.nmr, v.count == v0.count,
                                                                  v.flags == v0.flags, v.root == v0.root)))
        o.post('err', 'an uncorrectable read fails the operation', imp(land(rec, v.anyecc), r != 0))
        o.post('err', 'fails with a documented error', imp(land(r != 0, rec, E.err_nonnull), lor(*[ev == E.E[n] for n in OPERR])))
        o.post('err', 'reports uncorrectable reads as such', imp(land(rec, r != 0, E.err_nonnull), (ev == E.E['ECC']) == v.anyecc))
        o.post('err', 'no error code on success', imp(r == 0, ev == o.err0))
        o.post('work', 'gives up after 8 restarts', z3.ULE(v.nrec - v0.nrec, 9))
        o.post('count', 'the size stays', imp(land(rec, lor(r == 0, o.live)), land(v.count == v.card, v.card == v0.card)))
        o.all('stay', ['sec'], lambda t: imp(land(rec, lor(r == 0, o.live)), same_contents(v0, v)(t)), 'the contents stay')
        o.inv()


def job_gc(j, labels=None):
    o = Op(j, 'dhara_map_gc', 2, labels=labels)
    o.st.assume(lnot(o.v0.anyfail))
    for s, r in o.run():
        v0, v = o.v0, o.v
        o.errors(OPERR)
        o.keeps()
        o.size()
        o.post('work', 'reads at most 34 records and writes at most one page unless a block fails', imp(lnot(v.anyfail), land(z3.ULE(v.nmr - v0.nmr, 34), z3.ULE(v.nap - v0.nap, 1))))
        o.inv()


def job_sync(j, labels=None):
    o = Op(j, 'dhara_map_sync', 2, labels=labels)
    for s, r in o.run():
        o.errors(OPERR)
        o.keeps()
        o.size()
        o.post('sync', 'success means that everything is checkpointed', imp(r == 0, o.v.clean))
        o.inv()


def job_find(j, labels=None):
    o = Op(j, 'dhara_map_find', 4, rec=True, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    t = fresh('s', 32)
    E.targets = [t]
    loc = Obj('loc', 'cells', 4)
    st.mem[loc] = {0: Cell(4, fresh('loc0', 32))}
    nn = fresh('locnn', 1)
    for s, r in o.run(t, pmaybe(nn, pobj(loc))):
        v = o.v
        o.errors(('NOT_FOUND', 'ECC'))
        o.post('ryw', 'finds exactly the mapped sectors', imp(lnot(v.anyecc), (r == 0) == (v0.M(t) != NONE)))
        o.post('ryw', 'gives the page of the sector', imp(land(r == 0, nn), s.mem[loc][0].val == v0.M(t)))
        o.post('work', 'reads at most 33 records', z3.ULE(v.nmr - v0.nmr, 33))
        o.post('stay', 'changes nothing', land(v.count == v0.count, v.root == v0.root, v.flags == v0.flags, v.nap == v0.nap))


def job_read(j, labels=None):
    o = Op(j, 'dhara_map_read', 4, rec=True, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    t, i = fresh('s', 32), fresh('i', 64)
    st.assume(t != NONE)
    E.targets = [t]
    st.assume(z3.ULT(i, E.psize))
    db = ex.new_obj(st, 'data', nbytes=E.psize)
    for s, r in o.run(t, pobj(db)):
        v = o.v
        o.errors(('ECC',))
        d = s.mem[db](i)
        o.post('ryw', 'a mapped sector reads as its data', imp(land(r == 0, v0.M(t) != NONE), d == DBYTE(v0.data(v0.M(t)), i)))
        o.post('ryw', 'an unmapped sector reads as 0xff', imp(land(r == 0, v0.M(t) == NONE), d == bv(0xff, 8)))
        o.post('ryw', 'fails only for uncorrectable reads', (r != 0) == v.anyecc)
        o.post('work', 'reads at most 33 records', z3.ULE(v.nmr - v0.nmr, 33))
        o.post('stay', 'changes nothing', land(v.count == v0.count, v.root == v0.root, v.flags == v0.flags, v.nap == v0.nap))


def job_write(j, what='write', labels=None):
    name = 'dhara_map_' + what
    o = Op(j, name, 4, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    dst = fresh('dst', 32)
    st.assume(dst != NONE)
    E.targets = [dst]
    E.auto = True
    terms(st, sec=[dst])
    if what == 'write':
        db = ex.new_obj(st, 'data', nbytes=E.psize)
        E.databuf, E.given = db, fresh('given', 32)
        args = (dst, pobj(db))
        want = E.given
    elif what == 'copy_page':
        src = fresh('src', 32)
        st.assume(userp(src))
        args = (src, dst)
        want = v0.data(src)
    else:
        src = fresh('src', 32)
        st.assume(src != NONE)
        terms(st, sec=[src])
        args = (src, dst)
        want = v0.data(v0.M(src))
    new = v0.M(dst) == NONE
    j.cover(name + ': a new sector', st, land(new, v0.root != NONE))
    j.cover(name + ': an existing sector', st, lnot(new))
    unm = FALSE if what != 'copy_sector' else v0.M(src) == NONE
    for s, r in o.run(*args):
        v = o.v
        ok = r == 0
        terms(s, sec=[dst])
        full = land(r != 0, E.err_nonnull, E.errval(s) == E.E['MAP_FULL'])
        o.errors(OPERR + ('MAP_FULL',))
        o.keeps('ryw', dst)
        w = land(ok, lnot(unm))
        if what == 'copy_page':
            # the source may be moved by collections and recovery: its content is that of the time of the copy
            o.post('ryw', 'the sector is mapped', imp(ok, v.M(dst) != NONE))
            o.post('ryw', 'the sector has the data of the page at that time', imp(ok, land(s.gh['lastsrc'] == src, v.data(v.M(dst)) == s.gh['lastc'])))
        else:
            o.post('ryw', 'the sector has the data given', imp(w, land(v.M(dst) != NONE, v.data(v.M(dst)) == want)))
        if what == 'copy_sector':
            o.post('trim', 'copying an unmapped sector trims', imp(land(ok, unm), v.M(dst) == NONE))
        o.size(ite(unm, ite(new, bv(0, 32), bv(-1, 32)), ite(new, bv(1, 32), bv(0, 32))))
        o.post('full', 'refused as full only if the sector is new and the map is full', imp(full, land(new, z3.UGE(v0.count, E.cap(s)))))
        o.post('full', 'a new sector is only accepted below the capacity', imp(land(w, new), z3.ULT(v0.count, s.gh['cap_at'])))
        o.inv()


def job_trim(j, labels=None):
    o = Op(j, 'dhara_map_trim', 3, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    t = fresh('s', 32)
    st.assume(t != NONE)
    E.targets = [t]
    E.auto = True
    if not has('try_delete', 3):
        E.deleting = t
        ex.force_cut = True
    terms(st, sec=[t])
    j.cover('trim: a mapped sector', st, v0.M(t) != NONE)
    for s, r in o.run(t):
        v = o.v
        terms(s, sec=[t])
        o.errors(OPERR)
        o.keeps('trim', t)
        o.post('trim', 'the sector is gone', imp(r == 0, v.M(t) == NONE))
        o.size(ite(v0.M(t) == NONE, bv(0, 32), bv(-1, 32)))
        o.inv()


def job_clear(j, labels=None):
    o = Op(j, 'dhara_map_clear', 1, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    o.err0 = None
    st0 = st.copy()
    for s, r in ex.run('dhara_map_clear', st, [E.mp]):
        o.s, o.r, o.v = s, bv(0, 32), E.V(s)
        o.live = TRUE
        o.all('trim', ['sec'], lambda t: o.v.M(t) == NONE, 'no sector is mapped')
        o.post('trim', 'the size is zero', o.v.count == 0)
        o.inv()


def job_capacity(j, labels=None):
    o = Op(j, 'dhara_map_capacity', 1, rec=True, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    cap = E.jcap(st)
    for s, r in ex.run('dhara_map_capacity', st, [E.mp]):
        o.s, o.v = s, E.V(s)
        z = lambda x: z3.ZeroExt(32, x)
        g1 = z3.ZeroExt(24, E.gcr8(st)) + 1
        reserve = fresh('reserve', 32)      # cap / (gc_ratio + 1)
        s.assume(reserve == z3.UDiv(cap, g1))
        margin = bv(8, 64) << z(E.lb)
        rest = z(cap) - z(reserve)
        o.post('full', 'journal capacity less reserve and margin, never negative', z(r) == ite(z3.ULE(rest, margin), bv(0, 64), rest - margin))
        o.post('stay', 'changes nothing', land(o.v.count == v0.count, o.v.root == v0.root, o.v.flags == v0.flags))


def job_try_delete(j, labels=None):
    if not has('try_delete', 3):
        return
    o = Op(j, 'try_delete', 3, labels=labels)
    ex, E, st, v0 = o.ex, o.E, o.st, o.v0
    t = fresh('s', 32)
    st.assume(t != NONE)
    E.targets = [t]
    E.deleting = t
    ex.force_cut = True
    terms(st, sec=[t])
    for s, r in o.run(t):
        v = o.v
        ev = E.errv(s)
        terms(s, sec=[t])
        rec = land(r != 0, ev == E.E['RECOVER'])
        o.errors(OPERR + ('RECOVER',))
        o.keeps('trim', t)
        o.post('trim', 'the sector is gone', imp(r == 0, v.M(t) == NONE))
        o.size(ite(v0.M(t) == NONE, bv(0, 32), bv(-1, 32)))
        o.inv()
        o.post('inv', 'usable after recovery', imp(rec, lnot(v.dead)))
        o.all('evac', ['page'], lambda x: imp(rec, lnot(v.enumed(x))), 'recovery starts from scratch')
        o.post('evac', 'recovery starts from scratch', imp(rec, lnot(v.enumd)))
