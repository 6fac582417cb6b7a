"""Shared vocabulary of the journal and map contracts: chip geometry, cyclic order, journal state, the NAND driver environment."""
import z3
import job
from job import *

P32 = z3.BitVecSort(32)
P64 = z3.BitVecSort(64)
B8S = z3.BitVecSort(8)
BOOL = z3.BoolSort()
NONE = bv(0xffffffff, 32)
_k = {}


def consts():
    """sizes, offsets and enumerators, read from /repo's headers by the compiler"""
    if not _k:
        names = ['head', 'tail', 'tail_sync', 'root', 'recover_next', 'recover_root', 'recover_meta', 'bb_current', 'bb_last',
                 'epoch', 'flags', 'log2_ppc', 'nand', 'page_buf']
        ex = ['offsetof(struct dhara_journal, %s)' % n for n in names] + \
             ['sizeof(((struct dhara_journal *)0)->%s)' % n for n in names]
        nn = ['log2_page_size', 'log2_ppb', 'num_blocks']
        ex += ['offsetof(struct dhara_nand, %s)' % n for n in nn]
        ex += ['sizeof(struct dhara_journal)', 'sizeof(struct dhara_nand)', 'offsetof(struct dhara_map, journal)',
               'offsetof(struct dhara_map, gc_ratio)', 'offsetof(struct dhara_map, count)', 'sizeof(struct dhara_map)',
               'sizeof(((struct dhara_map *)0)->gc_ratio)', 'sizeof(((struct dhara_map *)0)->count)']
        en = ['DHARA_E_NONE', 'DHARA_E_BAD_BLOCK', 'DHARA_E_ECC', 'DHARA_E_TOO_BAD', 'DHARA_E_RECOVER', 'DHARA_E_JOURNAL_FULL',
              'DHARA_E_NOT_FOUND', 'DHARA_E_MAP_FULL', 'DHARA_E_MAX', 'DHARA_JOURNAL_F_DIRTY', 'DHARA_JOURNAL_F_BAD_META',
              'DHARA_JOURNAL_F_RECOVERY', 'DHARA_JOURNAL_F_ENUM_DONE', 'DHARA_HEADER_SIZE', 'DHARA_COOKIE_SIZE', 'DHARA_META_SIZE',
              'DHARA_MAX_RETRIES', 'DHARA_PAGE_NONE', 'DHARA_SECTOR_NONE']
        v = probe(['dhara/map.h', 'dhara/journal.h', 'dhara/nand.h', 'dhara/error.h'], ex + en)
        n = len(names)
        _k['off'] = dict(zip(names, v[:n]))
        _k['size'] = dict(zip(names, v[n:2 * n]))
        _k['noff'] = dict(zip(nn, v[2 * n:2 * n + 3]))
        (_k['jsize'], _k['nsize'], _k['mj'], _k['mgc'], _k['mcount'], _k['msize'], _k['gcsize'], _k['countsize']) = v[2 * n + 3:2 * n + 11]
        for e, x in zip(en, v[2 * n + 11:]):
            _k[e] = x
    return _k


class Geo:
    """an arbitrary supported chip: all of log2_page_size, log2_ppb, log2_ppc, num_blocks symbolic"""

    def __init__(self, st, lc=None):
        self.ls8, self.lb8, self.lc8 = fresh('ls', 8), fresh('lb', 8), fresh('lc', 8) if lc is None else lc
        self.nb = fresh('nb', 32)
        self.ls, self.lb, self.lc = [z3.ZeroExt(24, x) for x in (self.ls8, self.lb8, self.lc8)]
        one = bv(1, 32)
        self.bm, self.cm = (one << self.lb) - 1, (one << self.lc) - 1
        self.chip = self.nb << self.lb
        self.psize = bv(1, 64) << z3.ZeroExt(32, self.ls)
        st.assume(land(z3.UGE(self.lb8, 1), z3.ULE(self.lb8, 30), z3.UGE(self.ls8, 8), z3.ULE(self.ls8, 30), z3.UGE(self.nb, 2),
                       z3.ULE(self.nb, z3.LShR(bv(0x80000000, 32), self.lb))))
        if lc is None:
            st.assume(land(z3.UGE(self.lc8, 1), z3.ULE(self.lc8, self.lb8), z3.ULE(self.lc8, 22),
                           z3.ULE(20 + 132 * self.cm, bv(1, 32) << self.ls)))

    def blk(self, p):
        return z3.LShR(p, self.lb)

    def idx(self, p):
        return p & self.bm

    def user(self, p):
        return land(z3.ULT(p, self.chip), (p & self.cm) != self.cm)

    def al_b(self, p):
        return (p & self.bm) == 0

    def al_c(self, p):
        return (p & self.cm) == 0

    def same_b(self, a, b):
        return self.blk(a) == self.blk(b)

    def same_c(self, a, b):
        return z3.LShR(a, self.lc) == z3.LShR(b, self.lc)

    def nu(self, p):
        """next user page, cyclically"""
        p1 = p + 1
        p2 = z3.If(((p1 + 1) & self.cm) == 0, p1 + 1, p1)
        return z3.If(z3.UGE(p2, self.chip), bv(0, 32), p2)

    def nb_next(self, b):
        return z3.If(z3.UGE(b + 1, self.nb), bv(0, 32), b + 1)

    def slot(self, p):
        """byte offset of p's metadata record in its checkpoint page"""
        return 20 + 132 * z3.ZeroExt(32, p & self.cm)


def le(ts, a, b):
    """a is not after b, walking the chip forward from ts"""
    return ite(z3.UGE(a, ts) == z3.UGE(b, ts), z3.ULE(a, b), z3.UGE(a, ts))


def inwin(ts, lo, x, hi):
    return land(le(ts, lo, x), lnot(le(ts, hi, x)))


class JV:
    """journal fields of a state"""
    F = ['head', 'tail', 'tail_sync', 'root', 'recover_next', 'recover_root', 'recover_meta', 'bb_current', 'bb_last', 'epoch', 'flags']

    def __init__(self, E, st):
        k = consts()
        for f in self.F:
            setattr(self, f, st.mem[E.j][E.joff + k['off'][f]].val)
        self.ts = self.tail_sync
        g = E.g
        self.g = g
        self.dirty = (self.flags & k['DHARA_JOURNAL_F_DIRTY']) != 0
        self.badmeta = (self.flags & k['DHARA_JOURNAL_F_BAD_META']) != 0
        self.rec = (self.flags & k['DHARA_JOURNAL_F_RECOVERY']) != 0
        self.enumd = (self.flags & k['DHARA_JOURNAL_F_ENUM_DONE']) != 0
        self.buf = st.mem[E.buf]
        self.cont, self.bad, self.np, self.failed = st.gh['cont'], st.gh['bad'], st.gh['np'], st.gh['failed']
        self.gh = dict(st.gh)

    def win(self, x):
        """x lies between the tail and the head"""
        return inwin(self.ts, self.tail, x, self.head)

    def prot(self, x):
        """x lies between the last-synced tail and the head"""
        return lnot(le(self.ts, self.head, x))

    def metav(self, p, i):
        """metadata byte i of page p, wherever it is kept at the moment"""
        g = self.g
        off = g.slot(p) + i
        return ite(g.same_c(p, self.head), self.buf(off),
                   ite(land(self.recover_meta != NONE, g.same_c(p, self.recover_root)), self.cont(self.recover_meta, off),
                       self.cont(p | g.cm, off)))


class Env:
    """one symbolic journal on one symbolic chip, and the driver's contracts"""

    def __init__(self, j, ex, with_map=False, lc=None):
        k = consts()
        self.job, self.ex = j, ex
        st = self.st = State()
        self.g = Geo(st, lc)
        g = self.g
        self.n = Obj('nand', 'cells', k['nsize'])
        st.mem[self.n] = {}
        for f, v in (('log2_page_size', g.ls8), ('log2_ppb', g.lb8), ('num_blocks', g.nb)):
            st.setcell(self.n, k['noff'][f], v.size() // 8, v)
        self.n.const = True
        self.buf = ex.new_obj(st, 'page_buf', nbytes=g.psize)
        self.joff = k['mj'] if with_map else 0
        self.j = Obj('map' if with_map else 'journal', 'cells', k['msize'] if with_map else k['jsize'])
        st.mem[self.j] = {}
        for f in JV.F:
            st.setcell(self.j, self.joff + k['off'][f], k['size'][f], fresh(f, 8 * k['size'][f]))
        st.setcell(self.j, self.joff + k['off']['log2_ppc'], 1, g.lc8)
        st.setcell(self.j, self.joff + k['off']['nand'], 8, pobj(self.n))
        st.setcell(self.j, self.joff + k['off']['page_buf'], 8, pobj(self.buf))
        if with_map:
            st.setcell(self.j, k['mgc'], k['gcsize'], fresh('gc_ratio', 8 * k['gcsize']))
            st.setcell(self.j, k['mcount'], k['countsize'], fresh('count', 32))
        ex.ghost_sorts = {'cont': ([P32, P64], B8S), 'bad': ([P32], BOOL), 'np': ([P32], P32), 'failed': ([P32], BOOL), 'enumed': ([P32], BOOL)}
        ex.ghost_kinds = {'cont': ('page', 'idx'), 'bad': ('block',), 'np': ('block',), 'failed': ('block',), 'enumed': ('page',)}
        for n_, (a, r) in ex.ghost_sorts.items():
            st.gh[n_] = GUF(n_, a, r)
        # dtail: tail of the last checkpoint on the chip (moved on by dequeues of a clean journal); ck_*: what that checkpoint says
        for n_ in ('dtail', 'ck_page', 'nread', 'nprog', 'nerase', 'ncopy', 'ncp'):
            st.gh[n_] = fresh(n_, 32)
        st.gh['anyfail'] = FALSE       # some NAND operation of this call reported a bad block
        st.gh['anyecc'] = FALSE
        st.gh['ckfresh'] = FALSE       # the last write operation was a successful checkpoint
        State.derive = {'page': lambda p: [('block', simp(g.blk(p)))]}
        ex.join = True
        self.k = k
        self.np_ = pobj(self.n)
        self.jp = pobj(self.j, self.joff)
        for nm in ('is_bad', 'mark_bad', 'erase', 'prog', 'is_free', 'read', 'copy'):
            ex.handlers['dhara_nand_' + nm] = getattr(self, 'h_' + nm)
        se = [ex.funcs['dhara_set_error']] if 'dhara_set_error' in ex.funcs else []
        if se and all(len(f.params) == 2 for f in se):
            ex.handlers['dhara_set_error'] = self.h_set_error
            ex.soft.add('dhara_set_error')
        self.X = None
        self.E = {n_: bv(k['DHARA_E_' + n_], 32) for n_ in ('NONE', 'BAD_BLOCK', 'ECC', 'TOO_BAD', 'RECOVER', 'JOURNAL_FULL', 'NOT_FOUND', 'MAP_FULL')}
        self.check_mark = True

    def V(self, st):
        return JV(self, st)

    # ---- error pointers
    def errarg(self, st, nullable=True):
        o = Obj('err', 'cells', 4)
        st.mem[o] = {0: Cell(4, fresh('err0', 32))}
        c = fresh('errnn', 1)
        self.err_nonnull = c if nullable else TRUE
        self.err = o
        st.gh['lasterr'] = fresh('err_none', 32)
        return pmaybe(c, pobj(o)) if nullable else pobj(o)

    def errval(self, st):
        return st.mem[self.err][0].val

    def errv(self, st):
        """the error reported; for a null error pointer, the one that would have been"""
        return ite(self.err_nonnull, self.errval(st), st.gh['lasterr'])

    def h_set_error(self, ex, st, a):
        for g, o, off in a[0].alts:
            if o is not None:
                ex.store1(st, o, off, a[1], 4, g, 'set_error')
        st.gh['lasterr'] = a[1]
        return [(st, None)]

    def seterr(self, st, p, v):
        st.gh['lasterr'] = v
        for g, o, off in p.alts:
            if o is not None:
                self.ex.store1(st, o, off, v, 4, g, 'driver sets the error code')

    def isnand(self, st, a, what):
        for g, o, off in a.alts:
            if o is not self.n:
                self.ex.oblige(st, 'proto', lnot(g), 'pre', what + ': called with the journal\'s nand')

    # ---- driver contracts
    def h_is_bad(self, ex, st, a):
        self.isnand(st, a[0], 'is_bad')
        ex.oblige(st, 'proto', z3.ULT(a[1], self.g.nb), 'pre', 'is_bad: block on the chip')
        r = fresh('isbad', 32)
        st.assume((r != 0) == st.gh['bad'](a[1]))
        return [(st, r)]

    def h_mark_bad(self, ex, st, a):
        g = self.g
        b = a[1]
        self.isnand(st, a[0], 'mark_bad')
        ex.oblige(st, 'proto', z3.ULT(b, g.nb), 'pre', 'mark_bad: block on the chip')
        ex.oblige(st, 'mark', st.gh['failed'](b), 'pre', 'mark_bad: only blocks in which an operation has failed')
        self.mark_pre(ex, st, b)
        st.gh['bad'] = gupd(st.gh['bad'], lambda x: x == b, lambda x: TRUE)
        st.add_term('block', b)
        return [(st, None)]

    def mark_pre(self, ex, st, b):
        """nothing the journal still needs lives only in the block: pages up to the root have been evacuated and checkpointed"""
        v = self.V(st)
        x = fresh('xm', 32)
        s2 = st.copy()
        s2.add_term('page', x)
        g = self.g
        done = land(v.rec, v.enumd, st.gh['ckfresh'], st.gh['enumed'](x))
        # beyond the recovery root: superseded copies and unused pages
        rest = land(v.rec, lnot(le(v.ts, x, v.recover_root)), lor(g.same_b(x, v.recover_root), self.not_dump(v, b, st)))
        ex.oblige(s2, 'mark', imp(land(g.user(x), v.win(x), le(v.ts, x, v.root), g.blk(x) == b, v.root != NONE), lor(done, rest)), 'pre',
                  'mark_bad: every held page of the block has been evacuated and checkpointed')

    def not_dump(self, v, b, st):
        """a replacement block that failed too: its pages are superseded (recovery restarts), unless it holds dumped metadata"""
        g = self.g
        return lor(v.recover_meta == NONE, g.blk(v.recover_meta) != b, land(v.enumd, st.gh['ckfresh']))

    def touch(self, ex, st, b, what):
        """pages between last-synced tail and head are out of bounds"""

    def h_erase(self, ex, st, a):
        g = self.g
        b = a[1]
        self.isnand(st, a[0], 'erase')
        ex.oblige(st, 'proto', z3.ULT(b, g.nb), 'pre', 'erase: block on the chip')
        ex.oblige(st, 'proto', lnot(st.gh['bad'](b)), 'pre', 'erase: not a bad block')
        v = self.V(st)
        x = fresh('xe', 32)
        ex.oblige(st.copy(), 'keep', imp(land(z3.ULT(x, g.chip), lnot(le(v.ts, v.head, x))), g.blk(x) != b), 'pre',
                  'erase: the block holds no page between the last-synced tail and the head')
        ex.oblige(st.copy(), 'keep', imp(land(z3.ULT(x, g.chip), inwin(v.ts, st.gh['dtail'], x, v.head)), g.blk(x) != b), 'pre',
                  'erase: the block holds no page of the last checkpointed state')
        ex.oblige(st.copy(), 'wear', land(g.blk(v.head) == b, g.al_b(v.head)), 'pre', 'erase: only the block the head is entering')
        st.gh['nerase'] = st.gh['nerase'] + 1
        st.gh['ckfresh'] = FALSE
        cont0, np0 = st.gh['cont'], st.gh['np']
        s2 = st.copy()
        # success
        st.gh['cont'] = gupd(cont0, lambda p, o: g.blk(p) == b, lambda p, o: bv(0xff, 8))
        st.gh['np'] = gupd(np0, lambda x: x == b, lambda x: bv(0, 32))
        # failure
        junk = GUF('junk', [P32, P64], B8S)
        s2.gh['cont'] = gupd(cont0, lambda p, o: g.blk(p) == b, junk)
        j2 = GUF('junknp', [P32], P32)
        s2.gh['np'] = gupd(np0, lambda x: x == b, j2)
        self.fail(s2, b)
        self.seterr(s2, a[2], self.E['BAD_BLOCK'])
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def fail(self, st, b):
        st.gh['failed'] = gupd(st.gh['failed'], lambda x: x == b, lambda x: TRUE)
        st.gh['anyfail'] = TRUE
        st.add_term('block', b)

    def prog_pre(self, ex, st, p, what):
        g = self.g
        v = self.V(st)
        b = g.blk(p)
        ex.oblige(st, 'proto', z3.ULT(p, g.chip), 'pre', what + ': page on the chip')
        ex.oblige(st, 'proto', lnot(st.gh['bad'](b)), 'pre', what + ': not in a bad block')
        ex.oblige(st, 'proto', z3.ULE(st.gh['np'](b), g.idx(p)), 'pre', what + ': in order, not programmed since the last erase')
        ex.oblige(st, 'keep', le(v.ts, v.head, p), 'pre', what + ': not a page between the last-synced tail and the head')
        ex.oblige(st, 'wear', land(g.same_b(p, v.head), z3.UGE(p, v.head)), 'pre', what + ': at the head')

    def prog_eff(self, st, p, fn, ok, eb=None):
        g = self.g
        b = g.blk(p)
        st.gh['cont'] = gupd(st.gh['cont'], lambda q, o: q == p, (lambda q, o: fn(o)) if ok else GUF('torn', [P32, P64], B8S))
        idx = g.idx(p)
        st.gh['np'] = gupd(st.gh['np'], lambda x: x == b, lambda x: idx + 1)

    def h_prog(self, ex, st, a):
        g = self.g
        p, data = a[1], a[2]
        self.isnand(st, a[0], 'prog')
        self.prog_pre(ex, st, p, 'prog')
        ex.deref(st, data, g.psize, 'prog reads a page of data')
        st.gh['nprog'] = st.gh['nprog'] + 1
        s = data.single()
        if s is None:
            alts = [x for x in data.alts if x[1] is not None]
            if len(alts) != 1:
                raise Unsupported('prog of ambiguous buffer')
            s = alts[0]
        b0, off = st.mem[s[1]], s[2]
        iscp = (p & g.cm) == g.cm
        out = []
        for cp in (True, False):
            c = iscp if cp else lnot(iscp)
            if not ex.feasible(st, c):
                continue
            s1 = st.copy()
            s1.assume(c)
            if cp:
                self.checkpoint(ex, s1, p, s[1], off)
            else:
                v = self.V(s1)
                ex.oblige(s1, 'wear', p == v.head, 'pre', 'prog: user pages go exactly where the head is')
            s2 = s1.copy()
            rd = lambda o: b0(simp(off + o))
            self.prog_eff(s1, p, rd, True)
            self.prog_eff(s2, p, None, False)
            s1.gh['ckfresh'] = z3.BoolVal(cp)
            s2.gh['ckfresh'] = FALSE
            if cp:
                s1.gh['ncp'] = s1.gh['ncp'] + 1
                s1.gh['ck_page'] = p
                s1.gh['dtail'] = z3.Concat(*[rd(bv(i, 64)) for i in (7, 6, 5, 4)])
            self.fail(s2, g.blk(p))
            self.seterr(s2, a[3], self.E['BAD_BLOCK'])
            s1.notes += ('prog ok',)
            s2.notes += ('prog FAILS',)
            out += [(s1, bv(0, 32)), (s2, bv(-1, 32))]
        return out

    def checkpoint(self, ex, st, p, o, off):
        """on-flash format of the page that closes a checkpoint group"""
        g = self.g
        v = self.V(st)
        rd = st.mem[o]
        b = lambda i: rd(simp(off + i))
        ex.oblige(st, 'fmt', land(b(0) == ord('D'), b(1) == ord('h'), b(2) == ord('a')), 'pre', 'checkpoint page: magic Dha in bytes 0-2')
        ex.oblige(st, 'fmt', b(3) == v.epoch, 'pre', 'checkpoint page: epoch in byte 3')
        for nm, o4 in (('tail', 4), ('bb_current', 8), ('bb_last', 12)):
            w = getattr(v, nm)
            ex.oblige(st, 'fmt', land(*[b(o4 + i) == z3.Extract(8 * i + 7, 8 * i, w) for i in range(4)]), 'pre',
                      'checkpoint page: little-endian %s at byte %d' % (nm, o4))
        ex.oblige(st, 'fmt', g.same_c(p, v.head), 'pre', 'checkpoint page: closes the group the head is in')
        x, i = fresh('xs', 32), fresh('xi', 64)
        if getattr(self, 'newmeta', None) is not None:
            newmeta = self.newmeta
            ex.oblige(st.copy(), 'fmt', imp(z3.ULT(i, 132), b(simp(g.slot(v.head) + i)) == newmeta(i)), 'pre',
                      'checkpoint page: record of the newest page in its slot')
            buf0 = self.buf_entry
            ex.oblige(st.copy(), 'fmt', imp(land(z3.ULT(i, 132), g.same_c(x, v.head), z3.ULT(x, v.head)),
                                            b(simp(g.slot(x) + i)) == buf0(simp(g.slot(x) + i))), 'pre',
                      'checkpoint page: records of the older pages of the group in their slots')
            ex.oblige(st.copy(), 'fmt', imp(z3.ULT(i, 4), b(simp(16 + i)) == buf0(simp(16 + i))), 'pre',
                      'checkpoint page: the cookie of the upper layer at bytes 16-19')

    def h_is_free(self, ex, st, a):
        self.isnand(st, a[0], 'is_free')
        ex.oblige(st, 'proto', z3.ULT(a[1], self.g.chip), 'pre', 'is_free: page on the chip')
        return [(st, fresh('isfree', 32))]

    def h_read(self, ex, st, a):
        g = self.g
        p, off, n, data = a[1], a[2], a[3], a[4]
        self.isnand(st, a[0], 'read')
        ex.oblige(st, 'proto', z3.ULT(p, g.chip), 'pre', 'read: page on the chip')
        ex.oblige(st, 'proto', land(z3.ULE(n, g.psize), z3.ULE(off, g.psize - n)), 'pre', 'read: offset and length within the page')
        st.gh['nread'] = st.gh['nread'] + 1
        cont = st.gh['cont']
        s2 = st.copy()
        ex.buf_write_range(st, data, n, lambda k: cont(p, simp(off + k)), 'read')
        junk = GUF('eccjunk', [P64], B8S)
        ex.buf_write_range(s2, data, n, lambda k: junk(k), 'read')
        s2.gh['anyecc'] = TRUE
        self.seterr(s2, a[5], self.E['ECC'])
        s2.notes += ('read FAILS',)
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def h_copy(self, ex, st, a):
        g = self.g
        src, dst = a[1], a[2]
        self.isnand(st, a[0], 'copy')
        ex.oblige(st, 'proto', z3.ULT(src, g.chip), 'pre', 'copy: source page on the chip')
        self.prog_pre(ex, st, dst, 'copy')
        v = self.V(st)
        ex.oblige(st, 'wear', dst == v.head, 'pre', 'copy: user pages go exactly where the head is')
        st.gh['ncopy'] = st.gh['ncopy'] + 1
        st.gh['ckfresh'] = FALSE
        cont = st.gh['cont']
        s1, s2, s3 = st, st.copy(), st.copy()
        self.prog_eff(s1, dst, lambda o: cont(src, o), True)
        self.prog_eff(s2, dst, None, False)
        self.fail(s2, g.blk(dst))
        self.seterr(s2, a[3], self.E['BAD_BLOCK'])
        s3.gh['anyecc'] = TRUE
        self.seterr(s3, a[3], self.E['ECC'])
        s2.notes += ('copy FAILS',)
        s3.notes += ('copy ECC',)
        return [(s1, bv(0, 32)), (s2, bv(-1, 32)), (s3, bv(-1, 32))]
