"""Contracts of dhara/journal.c."""
import z3
import job
from job import *
from jbase import *


def mod():
    return module('dhara/journal.c')


def has(fn, arity=None):
    f = mod().funcs.get(fn)
    return f is not None and (arity is None or len(f.params) == arity)


# ------------------------------------------------------------------ the journal invariant
GROUP = {}


def jinv(E, st, kinds=('W', 'R', 'K')):
    """[(key, formula)]: what holds between any two public calls"""
    v, g = E.V(st), E.g
    ts = v.ts
    ck_root = st.gh['ck_page'] - 1
    out = []
    grp = 'W'

    def c(key, f):
        GROUP[key] = grp
        out.append((key, f))
    # W: positions
    c('head is a user page', g.user(v.head))
    c('tail is a user page', g.user(v.tail))
    c('synced tail is a user page', g.user(ts))
    c('tail is not after head', le(ts, v.tail, v.head))
    c('head does not enter the block of the synced tail', imp(g.same_b(v.head, ts), z3.UGE(v.head, ts)))
    c('root lies between tail and head', lor(v.root == NONE, land(g.user(v.root), v.win(v.root))))
    hb = g.blk(v.head)
    mid = lnot(g.al_b(v.head))
    c('pages from the head on are unprogrammed', imp(mid, z3.ULE(st.gh['np'](hb), g.idx(v.head))))
    c('head is not inside a bad block', imp(mid, lnot(st.gh['bad'](hb))))
    c('root is not in a bad block', imp(land(v.root != NONE, lnot(v.rec)), lnot(st.gh['bad'](g.blk(v.root)))))
    c('root is in the head\'s block', imp(land(mid, lnot(v.rec), v.root != NONE), g.same_b(v.root, v.head)))
    # R: recovery
    grp = 'R'
    c('recovery fields are clear outside recovery', imp(lnot(v.rec), land(v.recover_root == NONE, v.recover_next == NONE,
                                                                         v.recover_meta == NONE, lnot(v.badmeta), lnot(v.enumd))))
    rr, rm, rn = v.recover_root, v.recover_meta, v.recover_next
    c('recovery root is a held page', imp(v.rec, land(g.user(rr), v.win(rr))))
    c('recovery root is not in the head\'s block', imp(v.rec, lnot(g.same_b(rr, v.head))))
    c('recovery root\'s block has failed', imp(v.rec, st.gh['failed'](g.blk(rr))))
    c('recovery has a root', imp(v.rec, land(v.root != NONE, le(ts, rr, v.root))))
    c('enumeration stays in the failed block', imp(land(v.rec, lnot(v.enumd)),
                                                   land(g.user(rn), g.same_b(rn, rr), z3.ULE(rn, rr))))
    c('dump lies after the failed block', imp(land(v.rec, rm != NONE),
                                              land(g.user(rm), v.win(rm), lnot(le(ts, rm, rr)), lnot(g.same_b(rm, rr)))))
    c('a failed dump block is behind the head', imp(v.badmeta, land(rm != NONE, lnot(g.same_b(rm, v.head)), st.gh['failed'](g.blk(rm)))))
    # K: checkpoints
    grp = 'K'
    c('last checkpoint\'s tail is not before the synced tail', land(g.user(st.gh['dtail']), le(ts, st.gh['dtail'], v.tail)))
    c('a clean journal is checkpointed', imp(land(lnot(v.dirty), lnot(v.rec)), lor(v.root == NONE, land(
        v.root == ck_root, (st.gh['ck_page'] & g.cm) == g.cm))))
    return out


def jinv_all(E, st):
    """the universally quantified part"""
    g = E.g
    v = E.V(st)
    return [A('inv', ['page'], lambda x: imp(land(v.rec, g.user(x), g.same_b(x, v.recover_root), z3.ULE(x, v.recover_root),
                                                  lor(v.enumd, z3.ULT(x, v.recover_next))), st.gh['enumed'](x)),
              'pages before the enumeration point have been enumerated')]


def assume_inv(E, st):
    for k, f in jinv(E, st):
        st.assume(f)
    for a in jinv_all(E, st):
        E.ex.assume_clause(st, a)


def check_inv(E, st, kind='post', skip=(), desc='', label='inv'):
    for k, f in jinv(E, st):
        if k not in skip:
            E.ex.oblige(st.copy(), label, f, kind, desc + k)
    for a in jinv_all(E, st):
        if a.key not in skip:
            s = E.ex
            s2 = st.copy()
            a2 = A(label, a.kinds, a.fn, desc + a.key)
            s.oblige_clause(s2, a2, kind)


def setup(j, fns=(), inline=(), **kw):
    m = mod()
    ex = j.executor(m)
    E = Env(j, ex, **kw)
    E.inline = set(inline)
    return ex, E


def same(E, ex, st, v0, fields, label, desc):
    v = E.V(st)
    for f in fields:
        a, b = getattr(v0, f), getattr(v, f)
        if a is b or (z3.is_expr(a) and a.eq(b)):
            continue
        ex.oblige(st.copy(), label, a == b, 'frame', desc + ': ' + f + ' unchanged')


ALLF = JV.F


# ------------------------------------------------------------------ read_meta
def job_read_meta(j):
    ex, E = setup(j)
    st, g, k = E.st, E.g, E.k
    assume_inv(E, st)
    j.cover('journal invariant is satisfiable', st)
    j.cover('journal invariant is satisfiable in recovery', st, E.V(st).rec)
    p = fresh('p', 32)
    st.assume(g.user(p))
    mb = ex.new_obj(st, 'meta', nbytes=bv(k['DHARA_META_SIZE'], 64))
    ep = E.errarg(st)
    v0 = E.V(st)
    i = fresh('i', 64)
    n0 = st.gh['nread']
    for s, r in ex.run('dhara_journal_read_meta', st, [E.jp, p, pobj(mb), ep]):
        ex.oblige(s, 'meta', lor(r == 0, r == bv(-1, 32)), 'post', 'read_meta returns 0 or -1')
        ex.oblige(s.copy(), 'meta', imp(land(r == 0, z3.ULT(i, 132)), s.mem[mb](i) == v0.metav(p, i)), 'post',
                  'read_meta: returns the stored metadata of the page')
        ex.oblige(s, 'err', (r != 0) == s.gh['anyecc'], 'post', 'read_meta: fails exactly when the driver reports an error')
        ex.oblige(s, 'err', imp(land(r != 0, E.err_nonnull), E.errval(s) == E.E['ECC']), 'post', 'read_meta: passes the driver\'s error on')
        ex.oblige(s, 'err', imp(r == 0, E.errval(s) == E.errval(st)), 'post', 'read_meta: no error code on success')
        ex.oblige(s, 'work', z3.ULE(s.gh['nread'] - n0, 1), 'post', 'read_meta: at most one page read')
        same(E, ex, s, v0, ALLF, 'meta', 'read_meta')


# ------------------------------------------------------------------ peek, dequeue, clear
def job_peek(j):
    ex, E = setup(j)
    st, g = E.st, E.g
    assume_inv(E, st)
    v0 = E.V(st)
    st.assume(lnot(v0.rec))
    x = fresh('x', 32)

    def cand(ex, f, L, entry, s, ph0, ph):
        out = []
        for n, (_, b) in enumerate(ph):
            if not z3.is_bv(b) or b.size() != 32:
                continue
            p = b << g.lb
            out.append(C('inv', z3.ULT(b, g.nb), 'blk%d on chip' % n))
            first = b == g.blk(v0.tail)
            out.append(C('inv', lor(first, land(le(v0.ts, v0.tail, p), p != v0.tail)), 'blk%d after tail' % n))
            out.append(C('inv', lor(first, le(v0.ts, p, v0.head)), 'blk%d before head' % n))
            out.append(C('inv', lor(first, b != g.blk(v0.ts)), 'blk%d not the synced block' % n))
            out.append(C('inv', lor(first, imp(land(g.user(x), v0.win(x), lnot(le(v0.ts, p, x))), s.gh['bad'](g.blk(x)))), 'blk%d: skipped are bad' % n))
            if v0.root is not None:
                r_ = v0.root
                out.append(C('inv', lor(first, r_ == NONE, le(v0.ts, p, r_)), 'blk%d: not beyond the root' % n))
        return out
    ex.cand_fn = cand
    for s, r in ex.run('dhara_journal_peek', st, [E.jp]):
        v = E.V(s)
        check_inv(E, s, desc='peek: ')
        ex.oblige(s.copy(), 'fifo', (r == NONE) == (v.tail == v.head), 'post', 'peek: none exactly for an empty journal')
        ex.oblige(s.copy(), 'fifo', lor(r == NONE, r == v.tail), 'post', 'peek: gives the tail')
        ex.oblige(s.copy(), 'fifo', imp(land(g.user(x), v0.win(x), lnot(v.win(x))), s.gh['bad'](g.blk(x))), 'post',
                  'peek: only pages of bad blocks are skipped')
        ex.oblige(s.copy(), 'fifo', le(v0.ts, v0.tail, v.tail), 'post', 'peek: the tail never moves back')
        ex.oblige(s.copy(), 'fifo', imp(v.root != v0.root, land(v.root == NONE, v.tail == v.head)), 'post',
                  'peek: the root is dropped only when nothing is left')
        same(E, ex, s, v0, [f for f in ALLF if f not in ('tail', 'root')], 'fifo', 'peek')


def job_dequeue(j):
    ex, E = setup(j)
    ex.join = False
    st, g = E.st, E.g
    assume_inv(E, st)
    v0 = E.V(st)
    st.assume(lnot(v0.rec))
    x = fresh('x', 32)
    h_, a_, t_, c_ = [fresh(n, 32) for n in ('h', 'a', 't', 'chip')]
    wrap = lambda a, b: z3.If(z3.UGE(a, b), a - b, a)

    def cyc(h, a, t, ch):
        return (z3.UGT(wrap(h + ch - a, ch), wrap(h + ch - t, ch))) == lnot(
            z3.If(z3.ULE(t, h), land(z3.ULE(t, a), z3.ULE(a, h)), lor(z3.UGE(a, t), z3.ULE(a, h))))
    j.lemma('fifo', 'cyclic distances: a page is farther behind the head than the tail exactly if it is not between them', cyc(h_, a_, t_, c_),
            [z3.ULT(h_, c_), z3.ULT(a_, c_), z3.ULT(t_, c_), z3.ULE(c_, 0x80000000)])
    for s, r in ex.run('dhara_journal_dequeue', st, [E.jp]):
        v = E.V(s)
        s.assume(imp(z3.ULT(v0.root, g.chip), cyc(v.head, v0.root, v.tail, g.chip)))
        # ghost: whatever a clean journal drops was obsolete when it was checkpointed
        s.gh['dtail'] = ite(land(lnot(v0.dirty), v0.tail != v0.head), v.tail, s.gh['dtail'])
        check_inv(E, s, desc='dequeue: ')
        hx = land(g.user(x), v0.win(x))
        ex.oblige(s.copy(), 'fifo', imp(v0.tail == v0.head, land(v.tail == v0.tail)), 'post', 'dequeue: nothing happens to an empty journal')
        ex.oblige(s.copy(), 'fifo', imp(hx, v.win(x) == (x != v0.tail)), 'post', 'dequeue: removes exactly the oldest page')
        ex.oblige(s.copy(), 'fifo', imp(land(g.user(x), v.win(x)), v0.win(x)), 'post', 'dequeue: adds no page')
        ex.oblige(s.copy(), 'fifo', imp(v0.root != NONE, (v.root == NONE) == (v0.root == v0.tail)), 'post',
                  'dequeue: the root goes exactly when it is the page removed')
        ex.oblige(s.copy(), 'fifo', imp(v.root != NONE, v.root == v0.root), 'post', 'dequeue: the root stays otherwise')
        ex.oblige(s.copy(), 'keep', lor(v.ts == v0.ts, land(lnot(v0.dirty), v.ts == v.tail)), 'post',
                  'dequeue: the synced tail moves only if the journal is clean')
        ex.oblige(s.copy(), 'sync', v.dirty == v0.dirty, 'post', 'dequeue: does not make the journal clean')
        same(E, ex, s, v0, [f for f in ALLF if f not in ('tail', 'root', 'tail_sync')], 'fifo', 'dequeue')


def job_clear(j):
    ex, E = setup(j)
    st, g = E.st, E.g
    assume_inv(E, st)
    v0 = E.V(st)
    st.assume(lnot(v0.rec))
    i = fresh('i', 64)
    for s, r in ex.run('dhara_journal_clear', st, [E.jp]):
        v = E.V(s)
        check_inv(E, s, desc='clear: ')
        ex.oblige(s, 'fifo', land(v.tail == v.head, v.root == NONE, v.head == v0.head), 'post', 'clear: empties the journal')
        ex.oblige(s, 'sync', v.dirty, 'post', 'clear: the journal needs a checkpoint')
        ex.oblige(s.copy(), 'keep', v.ts == v0.ts, 'post', 'clear: the synced tail stays')
        ex.oblige(s.copy(), 'fmt', imp(land(z3.ULT(i, g.psize), z3.UGE(i, 20)), v.buf(i) == 0xff), 'post',
                  'clear: buffered metadata become filler')
        ex.oblige(s.copy(), 'fmt', imp(z3.ULT(i, 20), v.buf(i) == v0.buf(i)), 'post', 'clear: the cookie stays')
        same(E, ex, s, v0, [f for f in ALLF if f not in ('tail', 'root', 'flags')], 'fifo', 'clear')
        ex.oblige(s, 'fifo', (v.flags | 1) == (v0.flags | 1), 'post', 'clear: no other flag changes')


def job_init(j, map_=False):
    """dhara_journal_init / dhara_map_init: the checkpoint period, the empty journal, and its invariant"""
    lc = fresh('lc', 8)
    m = mod() if not map_ else module('dhara/map.c')
    ex = j.executor(m) if not map_ else j.executor(m, mod())
    E = Env(j, ex, lc=lc, with_map=map_)
    ex.force_unroll = True
    st, g, k = E.st, E.g, E.k
    i = fresh('i', 64)
    ratio = fresh('ratio', 8)
    args = [E.jp, E.np_, pobj(E.buf)] if not map_ else [pobj(E.j), E.np_, pobj(E.buf), ratio]
    nm = 'dhara_map_init' if map_ else 'dhara_journal_init'
    nm_ = nm + ': '
    for s, r in ex.run(nm, st, args):
        c8 = s.mem[E.j][E.joff + k['off']['log2_ppc']].val
        s.assume(lc == c8)
        v = E.V(s)
        post = lambda lab, key, f: ex.oblige(s.copy(), lab, f, 'post', nm_ + key)
        meta = lambda c: 20 + 132 * ((bv(1, 64) << z3.ZeroExt(56, c)) - 1)
        post('geom', 'the checkpoint period is at least 2 pages and at most a block', land(z3.UGE(c8, 1), z3.ULE(c8, g.lb8)))
        post('geom', 'the metadata of a group fit in one page', z3.ULE(meta(c8), g.psize))
        post('geom', 'the checkpoint period is the largest that fits', lor(c8 == g.lb8, z3.UGT(meta(c8 + 1), g.psize)))
        ad = lambda f: s.mem[E.j][E.joff + k['off'][f]].val
        for f, o in (('nand', E.n), ('page_buf', E.buf)):
            p = ad(f)
            post('geom', 'keeps the ' + f, land(*[imp(gd, z3.BoolVal(ob is o and cval(of) == 0)) for gd, ob, of in p.alts]))
        post('fifo', 'an empty journal', land(v.head == 0, v.tail == 0, v.ts == 0, v.root == NONE, v.flags == 0, v.epoch == 0, v.bb_current == 0))
        post('fmt', 'no metadata are buffered', imp(z3.ULT(i, g.psize), v.buf(i) == 0xff))
        post('fifo', 'does not touch the chip', z3.BoolVal(all(s.gh[n] is E.st.gh[n] or s.gh[n].eq(E.st.gh[n]) if n not in ex.ghost_sorts else True for n in ('nprog', 'nerase', 'ncopy', 'nread'))))
        if map_:
            gr = s.mem[E.j][k['mgc']].val
            post('full', 'a collection ratio of at least 1', gr == ite(ratio == 0, bv(1, 8), ratio))
        s.gh['dtail'] = bv(0, 32)
        ex.oblige(s, 'geom', land(z3.ULE(c8, 22), z3.UGE(c8, 1)), 'post', nm_ + 'the checkpoint period is at most 2^22 pages')
        check_inv(E, s, desc=nm_)


def job_counts(j):
    """dhara_journal_size and dhara_journal_capacity"""
    ex, E = setup(j)
    st, g = E.st, E.g
    # U(p): user pages below page p, by its recursion
    U = lambda p: p - z3.LShR(p, g.lc)
    p = fresh('p', 32)
    ex.oblige(st.copy(), 'full', U(bv(0, 32)) == 0, 'lemma', 'no user page below page 0')
    ex.oblige(st.copy(), 'full', imp(z3.ULT(p, g.nb << g.lb), U(p + 1) == U(p) + ite(g.user(p), bv(1, 32), bv(0, 32))), 'lemma', 'one more below p+1 exactly if p is a user page')
    assume_inv(E, st)
    v0 = E.V(st)
    total = g.nb << g.lb
    j.cover('journal that wraps around', st, z3.ULT(v0.head, v0.ts))
    s0 = st.copy()
    ex.join = False
    for s, r in ex.run('dhara_journal_size', s0.copy(), [E.jp]):
        for w, n_ in ((U(total) - U(v0.ts) + U(v0.head), 'wrapped'), (U(v0.head) - U(v0.ts), 'straight')):
            s2 = s.copy()
            s2.assume(z3.ULT(v0.head, v0.ts) if n_ == 'wrapped' else z3.UGE(v0.head, v0.ts))
            ex.oblige(s2, 'full', r == w, 'post', 'size: the user pages from the last-synced tail to the head (%s)' % n_)
        same(E, ex, s, v0, ALLF, 'full', 'size')
    for s, r in ex.run('dhara_journal_capacity', s0.copy(), [E.jp]):
        mb = ite(z3.UGT(v0.bb_last, v0.bb_current), v0.bb_last, v0.bb_current)
        good = ite(z3.ULT(mb, g.nb), g.nb - mb - 1, bv(0, 32))
        ex.oblige(s.copy(), 'full', r == U(good << g.lb), 'post', 'capacity: the user pages of the good blocks but one')
        ex.oblige(s.copy(), 'full', z3.ULT(r, total), 'post', 'capacity: less than the pages on the chip')
        same(E, ex, s, v0, ALLF, 'full', 'capacity')


def job_next_recoverable(j):
    ex, E = setup(j)
    st, g = E.st, E.g
    assume_inv(E, st)
    v0 = E.V(st)
    for s, r in ex.run('dhara_journal_next_recoverable', st, [E.jp]):
        v = E.V(s)
        ex.oblige(s.copy(), 'recover', imp(lor(lnot(v0.rec), v0.enumd), r == NONE), 'post', 'next_recoverable: none outside recovery and after the last page')
        ex.oblige(s.copy(), 'recover', imp(land(v0.rec, lnot(v0.enumd)), land(g.user(r), g.same_b(r, v0.recover_root), z3.ULE(r, v0.recover_root),
                                                                             r == v0.recover_next)), 'post',
                  'next_recoverable: a user page of the failed block, up to the last good one')
        s.gh['enumed'] = gupd(s.gh['enumed'], lambda x: x == r, lambda x: TRUE)
        s.add_term('page', r)
        check_inv(E, s, desc='next_recoverable: ')
        ex.oblige(s.copy(), 'recover', imp(land(v0.rec, lnot(v0.enumd), lnot(v.enumd)), z3.UGT(v.recover_next, r)), 'post',
                  'next_recoverable: never the same page twice')
        same(E, ex, s, v0, [f for f in ALLF if f not in ('recover_next', 'flags')], 'recover', 'next_recoverable')
        fl = bv(E.k['DHARA_JOURNAL_F_ENUM_DONE'], 8)
        ex.oblige(s, 'recover', (v.flags | fl) == (v0.flags | fl), 'post', 'next_recoverable: no other flag changes')


# ------------------------------------------------------------------ contracts of internal functions (cut points; a function that
# does not exist any more is simply executed in its caller)
RC_GH = ('nread', 'nprog', 'nerase', 'ncopy', 'ncp', 'ck_page', 'dtail')


def notfull(g, v):
    n = g.nu(v.head)
    return lnot(land(g.same_b(n, v.ts), lnot(g.same_b(n, v.head))))


def stats(g, v0, v1, extra=None):
    """one bad block is counted per skipped block; a new epoch starts at block 0"""
    b0, b1 = g.blk(v0.head), g.blk(v1.head)
    w = z3.ULT(v1.head, v0.head)
    return land(v1.bb_current == ite(w, b1, v0.bb_current + b1 - b0), v1.bb_last == ite(w, v0.bb_current + g.nb - b0, v0.bb_last),
                v1.epoch == v0.epoch + ite(w, bv(1, 8), bv(0, 8)))


def epoch1(g, v0, v1):
    return v1.epoch == v0.epoch + ite(z3.ULT(v1.head, v0.head), bv(1, 8), bv(0, 8))


class PH:
    """prepare_head(j, err)"""
    name, nargs = 'prepare_head', 2
    fields = ['head', 'bb_current', 'bb_last', 'epoch', 'flags']

    @staticmethod
    def pre(E, st, args):
        v, g = E.V(st), E.g
        mid = lnot(g.al_b(v.head))
        dt = st.gh['dtail']
        return [('inv', 'head, tails are user pages in order', land(g.user(v.head), g.user(v.ts), g.user(v.tail), g.user(dt), le(v.ts, v.tail, v.head),
                                                                    le(v.ts, dt, v.tail))),
                ('inv', 'head does not enter the block of the synced tail', imp(g.same_b(v.head, v.ts), z3.UGE(v.head, v.ts))),
                ('inv', 'pages from the head on are unprogrammed', imp(mid, z3.ULE(st.gh['np'](g.blk(v.head)), g.idx(v.head)))),
                ('inv', 'head is not inside a bad block', imp(mid, lnot(st.gh['bad'](g.blk(v.head)))))]

    @staticmethod
    def outcomes(E):
        return [(bv(0, 32), 'ok'), (bv(-1, 32), 'bb'), (bv(-1, 32), 'stop')]

    @staticmethod
    def havoc(E, s0, s, kind):
        g = E.g
        v0, v = E.V(s0), E.V(s)
        b = g.blk(v.head)
        if kind == 'ok':
            al = g.al_b(v.head)
            c0, n0 = s0.gh['cont'], s0.gh['np']
            s.gh['cont'] = gupd(c0, lambda p, o: land(al, g.blk(p) == b), lambda p, o: bv(0xff, 8))
            s.gh['np'] = gupd(n0, lambda x: land(al, x == b), lambda x: bv(0, 32))
            s.gh['nerase'] = s0.gh['nerase'] + ite(al, bv(1, 32), bv(0, 32))
            s.gh['ckfresh'] = land(s0.gh['ckfresh'], lnot(al))
        elif kind == 'bb':
            c0, n0 = s0.gh['cont'], s0.gh['np']
            s.gh['cont'] = gupd(c0, lambda p, o: g.blk(p) == b, GUF('junk', [P32, P64], B8S))
            s.gh['np'] = gupd(n0, lambda x: x == b, GUF('junknp', [P32], P32))
            s.gh['failed'] = gupd(s0.gh['failed'], lambda x: x == b, lambda x: TRUE)
            s.gh['nerase'] = s0.gh['nerase'] + 1
            s.gh['ckfresh'] = FALSE
            s.gh['anyfail'] = TRUE

    @staticmethod
    def post(E, s0, s, r, ev):
        k, g = E.k, E.g
        v0, v = E.V(s0), E.V(s)
        D_ = bv(k['DHARA_JOURNAL_F_DIRTY'], 8)
        ok, bb = r == 0, land(r != 0, ev == E.E['BAD_BLOCK'])
        jf, tb = land(r != 0, ev == E.E['JOURNAL_FULL']), land(r != 0, ev == E.E['TOO_BAD'])
        hb = g.blk(v.head)
        al = g.al_b(v.head)
        moved = v.head != v0.head
        b0, b1 = g.blk(v0.head), hb
        dist = ite(z3.UGE(b1, b0), b1 - b0, b1 + g.nb - b0)
        out = [('err', 'prepare_head: returns 0, or -1 with BAD_BLOCK, JOURNAL_FULL or TOO_BAD', lor(ok, land(r == bv(-1, 32), lor(bb, jf, tb)))),
               ('inv', 'prepare_head: head is a user page, forward of the old one', land(g.user(v.head), le(v.ts, v0.head, v.head))),
               ('inv', 'prepare_head: the head moves to the start of a block only', lor(lnot(moved), al)),
               ('inv', 'prepare_head: a head inside a block stays', imp(lnot(g.al_b(v0.head)), lnot(moved))),
               ('inv', 'prepare_head: head does not enter the block of the synced tail', imp(g.same_b(v.head, v.ts), land(lnot(moved), z3.UGE(v.head, v.ts)))),
               ('fmt', 'prepare_head: one bad block counted per block skipped, new epoch at block 0', stats(g, v0, v)),
               ('inv', 'prepare_head: only the dirty flag changes', lor(v.flags == v0.flags, v.flags == v0.flags | D_)),
               ('sync', 'prepare_head: marks the journal dirty', lor(land(lor(jf, tb), lnot(moved)), (v.flags & D_) != 0)),
               ('inv', 'prepare_head: block is writable', imp(ok, land(lnot(s.gh['bad'](hb)), z3.ULE(s.gh['np'](hb), g.idx(v.head))))),
               ('inv', 'prepare_head: the next page is not in the block of the synced tail', imp(lor(ok, bb), notfull(g, v))),
               ('inv', 'prepare_head: a failed erase leaves the head at its start', imp(bb, land(al, lnot(s.gh['bad'](hb)), s.gh['failed'](hb)))),
               ('err', 'prepare_head: full only if the next block is that of the synced tail', imp(jf, lor(
                   lnot(notfull(g, v)), land(al, s.gh['bad'](hb), g.nb_next(hb) == g.blk(v.ts))))),
               ('err', 'prepare_head: gives up only after the maximal number of bad blocks', imp(tb, land(
                   dist == bv(k['DHARA_MAX_RETRIES'], 32)))),
               ('work', 'prepare_head: at most one erase', s.gh['nerase'] == s0.gh['nerase'] + ite(lor(land(ok, al), bb), bv(1, 32), bv(0, 32))),
               ('inv', 'prepare_head: reports driver failures', s.gh['anyfail'] == lor(s0.gh['anyfail'], bb) if s.gh['anyfail'] is not s0.gh['anyfail'] else lnot(land(bb, lnot(s0.gh['anyfail'])))),
               ('inv', 'prepare_head: no write after the last checkpoint but an erase', s.gh['ckfresh'] == land(s0.gh['ckfresh'], lnot(lor(bb, land(ok, al)))))]
        for n in ('nread', 'nprog', 'ncopy', 'ncp', 'ck_page', 'dtail', 'anyecc'):
            if s.gh[n] is not s0.gh[n]:
                out.append(('work', 'prepare_head: does nothing else (%s)' % n, s.gh[n] == s0.gh[n]))
        return out

    @staticmethod
    def forall(E, s0, s, r, ev):
        g = E.g
        v0, v = E.V(s0), E.V(s)
        moved = v.head != v0.head
        ok, bb = r == 0, land(r != 0, ev == E.E['BAD_BLOCK'])
        hb = g.blk(v.head)
        er = lor(bb, land(ok, g.al_b(v.head)))
        out = [A('inv', ['page'], lambda x: imp(land(moved, g.user(x), inwin(v.ts, v0.head, x, v.head)), s0.gh['bad'](g.blk(x))),
                 'prepare_head: only bad blocks are skipped')]
        fr = [A('keep', ['page', 'idx'], lambda x, o: imp(lnot(land(er, g.blk(x) == hb)), s.gh['cont'](x, o) == s0.gh['cont'](x, o)),
                'prepare_head: nothing but the erased block changes'),
              A('keep', ['block'], lambda b: imp(lnot(land(er, b == hb)), s.gh['np'](b) == s0.gh['np'](b)), 'prepare_head: programs nothing'),
              A('inv', ['block'], lambda b: imp(land(ok, er, b == hb), s.gh['np'](b) == 0), 'prepare_head: erases the block'),
              A('inv', ['block'], lambda b: s.gh['failed'](b) == lor(s0.gh['failed'](b), land(bb, b == hb)), 'prepare_head: failed blocks'),
              A('mark', ['block'], lambda b: s.gh['bad'](b) == s0.gh['bad'](b), 'prepare_head: marks nothing bad')]
        return out, fr


class RF:
    """recover_from(j, write_err, err)"""
    name, nargs = 'recover_from', 3
    fields = ['head', 'tail', 'root', 'recover_next', 'recover_root', 'recover_meta', 'bb_current', 'bb_last', 'epoch', 'flags']

    @staticmethod
    def pre(E, st, args):
        v, g = E.V(st), E.g
        bb = args[1] == E.E['BAD_BLOCK']
        skip = ('pages from the head on are unprogrammed', 'a clean journal is checkpointed')
        out = [('inv', 'recover_from: ' + k, f) for k, f in jinv(E, st) if k not in skip]
        hb = g.blk(v.head)
        out.append(('inv', 'recover_from: an operation failed in the head\'s block', imp(bb, land(v.dirty, st.gh['failed'](hb), lnot(st.gh['bad'](hb)), st.gh['anyfail'],
                                                                                           lnot(st.gh['ckfresh'])))))
        return out

    @staticmethod
    def outcomes(E):
        return [(bv(0, 32), 'retry'), (bv(-1, 32), 'pass'), (bv(-1, 32), 'recover'), (bv(-1, 32), 'dead')]

    @staticmethod
    def havoc(E, s0, s, kind):
        if kind == 'pass':
            return
        g = E.g
        v0 = E.V(s0)
        c0, f0, b0 = s0.gh['cont'], s0.gh['failed'], s0.gh['bad']
        if kind != 'retry':
            s.gh['cont'] = gupd(c0, lambda p, o: lnot(land(z3.ULT(p, g.chip), lor(lnot(le(v0.ts, v0.head, p)), g.same_b(p, v0.head)))), GUF('hvcont', [P32, P64], B8S))
            s.gh['np'] = GUF('hvnp', [P32], P32)
            s.gh['failed'] = GUF('hvfailed', [P32], BOOL)
            s.mem[E.buf] = GUF('hvbuf', [P64], B8S)
        s.gh['bad'] = GUF('hvbad', [P32], BOOL)
        for n in ('nprog', 'nerase', 'ncp'):
            s.gh[n] = fresh('hv_' + n, 32)

    @staticmethod
    def post(E, s0, s, r, ev, args):
        k, g = E.k, E.g
        v0, v = E.V(s0), E.V(s)
        we = args[1]
        bbk = we == E.E['BAD_BLOCK']
        fl = {n: bv(k['DHARA_JOURNAL_F_' + n], 8) for n in ('DIRTY', 'BAD_META', 'RECOVERY', 'ENUM_DONE')}
        retry = r == 0
        rec = land(r != 0, bbk, ev == E.E['RECOVER'])
        full = g.nb_next(g.blk(v0.head)) == g.blk(v0.ts)
        dead = land(r != 0, bbk, ev != E.E['RECOVER'])
        nxt = g.nb_next(g.blk(v0.head)) << g.lb
        sf = lambda *ns: land(*[getattr(v, n) == getattr(v0, n) for n in ns])
        alf = [f for f in JV.F if f not in ('tail_sync',)]
        dump = land(lnot(v0.rec), g.same_c(v0.head, v0.root), v0.root != NONE, lnot(g.al_b(v0.head)))
        skipst = land(v.head == nxt, stats(g, v0, v))
        out = [('err', 'recover_from: passes on errors other than a bad block', imp(lnot(bbk), land(r == bv(-1, 32), ev == we, sf(*alf)))),
               ('err', 'recover_from: returns 0 or -1 with RECOVER, JOURNAL_FULL or TOO_BAD', imp(bbk, lor(
                   retry, land(r == bv(-1, 32), lor(*[ev == E.E[n] for n in ('RECOVER', 'JOURNAL_FULL', 'TOO_BAD')]))))),
               ('err', 'recover_from: without a place to go on: JOURNAL_FULL', imp(land(bbk, full), land(r == bv(-1, 32), ev == E.E['JOURNAL_FULL'], sf(*alf)))),
               ('err', 'recover_from: otherwise stops only while saving metadata', imp(land(dead, lnot(full)), dump)),
               ('keep', 'recover_from: gives up nothing', imp(dead, sf('tail', 'root'))),
               ('recover', 'recover_from: nothing to recover: an empty journal, or a block without pages',
                imp(retry, land(bbk, skipst, lnot(v0.rec), lor(g.al_b(v0.head), v0.root == NONE),
                                v.tail == ite(g.al_b(v0.head), v0.tail, v.head), v.flags == v0.flags,
                                sf('root', 'recover_next', 'recover_root', 'recover_meta')))),
               ('recover', 'recover_from: enters recovery', imp(rec, land(v.rec, v.tail == v0.tail, lnot(v.enumd), v.dirty,
                                                                  v.recover_root == ite(v0.rec, v0.recover_root, v0.root), v.root == v.recover_root,
                                                                  v.recover_next == (v.recover_root & ~g.bm)))),
               ('recover', 'recover_from: starts recovery only if a held page is in the failed block', imp(land(rec, lnot(v0.rec)), land(v0.root != NONE, lnot(g.al_b(v0.head))))),
               ('recover', 'recover_from: a failed replacement block', imp(land(rec, v0.rec), land(skipst, v.recover_meta == v0.recover_meta,
                    v.badmeta == lor(v0.badmeta, land(v0.recover_meta != NONE, g.same_b(v0.recover_meta, v0.head)))))),
               ('recover', 'recover_from: buffered metadata is saved', imp(land(rec, lnot(v0.rec)), land(lnot(v.badmeta), (v.recover_meta != NONE) == dump))),
               ('inv', 'recover_from: the head moves forward', imp(lor(rec, retry), le(v.ts, v0.head, v.head))),
               ('fmt', 'recover_from: new epoch at block 0', imp(lor(rec, retry), epoch1(g, v0, v)))]
        if s is not s0:
            out.append(('recover', 'recover_from: nothing else happens before the retry', imp(lor(retry, lnot(bbk)), land(*[s.gh[n] == s0.gh[n] for n in ('nread', 'nprog', 'nerase', 'ncopy', 'ncp')]))))
            out.append(('work', 'recover_from: only erases and dumps', land(*[s.gh[n] == s0.gh[n] for n in ('nread', 'ncopy', 'ck_page', 'dtail', 'ncp')])))
            out.append(('work', 'recover_from: bounded work', land(z3.ULE(s.gh['nprog'] - s0.gh['nprog'], 8), z3.ULE(s.gh['nerase'] - s0.gh['nerase'], 8))))
        for key, f in jinv(E, s):
            out.append(('inv', 'recover_from: ' + key, imp(lor(retry, rec), f)))
        return out

    @staticmethod
    def forall(E, s0, s, r, ev, args):
        g = E.g
        v0, v = E.V(s0), E.V(s)
        bbk = args[1] == E.E['BAD_BLOCK']
        rec = land(r != 0, bbk, ev == E.E['RECOVER'])
        retry = r == 0
        out = [A('inv', ['block'], lambda b: imp(s0.gh['failed'](b), s.gh['failed'](b)), 'recover_from: failed blocks stay failed'),
               A('inv', ['page'], lambda x: imp(land(retry, g.user(x), inwin(v.ts, v0.head, x, v.head)), s0.gh['failed'](g.blk(x))),
                 'recover_from: only the failed block is skipped'),
               A('mark', ['block'], lambda b: imp(s0.gh['bad'](b), s.gh['bad'](b)), 'recover_from: bad blocks stay bad'),
               A('mark', ['block'], lambda b: imp(land(s.gh['bad'](b), lnot(s0.gh['bad'](b))), s.gh['failed'](b)), 'recover_from: only failed blocks are marked'),
               A('recover', ['idx'], lambda o: imp(land(rec, lnot(v0.rec), v.recover_meta != NONE, z3.ULT(o, g.psize)),
                                                   s.gh['cont'](v.recover_meta, o) == v0.buf(o)), 'recover_from: the buffered metadata is saved'),
               A('recover', ['idx'], lambda o: imp(lor(land(rec, z3.ULT(o, 20)), retry, lnot(bbk)), v.buf(o) == v0.buf(o)),
                 'recover_from: the cookie stays'),
               A('recover', ['idx'], lambda o: imp(land(rec, lnot(v0.rec), v.recover_meta != NONE, z3.UGE(o, 20), z3.ULT(o, g.psize)), v.buf(o) == bv(0xff, 8)),
                 'recover_from: the buffer is empty afterwards')]
        fr = [A('keep', ['page', 'idx'], lambda x, o: imp(land(z3.ULT(x, g.chip), lor(lnot(le(v0.ts, v0.head, x)), g.same_b(x, v0.head))), s.gh['cont'](x, o) == s0.gh['cont'](x, o)),
                'recover_from: no page before the head changes, nor any in its block'),
              A('keep', ['page', 'idx'], lambda x, o: imp(lor(retry, lnot(bbk)), s.gh['cont'](x, o) == s0.gh['cont'](x, o)),
                'recover_from: nothing is written before the retry'),
              A('keep', ['block'], lambda b: imp(lor(retry, lnot(bbk)), land(s.gh['np'](b) == s0.gh['np'](b), s.gh['failed'](b) == s0.gh['failed'](b))),
                'recover_from: no operation before the retry'),
              A('keep', ['block'], lambda b: imp(lnot(bbk), s.gh['bad'](b) == s0.gh['bad'](b)), 'recover_from: marks nothing without a bad block')]
        return out, fr


def wrap_posts(con, E, s0, s, r, ev, args):
    try:
        return con.post(E, s0, s, r, ev, args), con.forall(E, s0, s, r, ev, args)
    except TypeError:
        return con.post(E, s0, s, r, ev), con.forall(E, s0, s, r, ev)


def argerr(con, args):
    return args[-1]


def install(E, ex, con):
    """use con's contract instead of the body, if the function exists"""
    if con.name in E.inline or not has(con.name, con.nargs):
        return False

    def h(ex, st, args):
        for lab, key, f in con.pre(E, st, args):
            ex.oblige(st.copy(), lab, f, 'pre', '%s, precondition: %s' % (con.name, key))
        outs = []
        for r, kind in con.outcomes(E):
            s = st.copy()
            for f in con.fields:
                s.setcell(E.j, E.joff + E.k['off'][f], E.k['size'][f], fresh('c_' + f, 8 * E.k['size'][f]))
            con.havoc(E, st, s, kind)
            ev = fresh('c_err', 32)
            post, (fa, fr) = wrap_posts(con, E, st, s, r, ev, args)
            for lab, key, f in con.kindfacts(E, st, s, r, ev, kind, args):
                s.assume(f)
            for lab, key, f in post:
                s.assume(f)
            for a in fa + fr:
                s.add_forall(a.kinds, a.fn)
            v = E.V(s)
            for kd, t in (('page', v.head), ('block', E.g.blk(v.head))):
                s.add_term(kd, t)
            if cval(r) != 0:
                E.seterr(s, args[-1], ev)
                s.gh['lasterr'] = ev
            s.notes += ('%s: %s' % (con.name, kind),)
            if ex.feasible(s, TRUE):
                outs.append((s, r))
        return outs
    ex.handlers[con.name] = h
    return True


def ph_kind(E, s0, s, r, ev, kind, args):
    if kind == 'bb':
        return [('', '', ev == E.E['BAD_BLOCK'])]
    if kind == 'stop':
        return [('', '', ev != E.E['BAD_BLOCK'])]
    return []


def rf_kind(E, s0, s, r, ev, kind, args):
    bb = args[1] == E.E['BAD_BLOCK']
    return [('', '', {'retry': bb, 'pass': lnot(bb), 'recover': land(bb, ev == E.E['RECOVER']), 'dead': land(bb, ev != E.E['RECOVER'])}[kind])]


PH.kindfacts, RF.kindfacts = staticmethod(ph_kind), staticmethod(rf_kind)


def part_of(ex, part, labels=None):
    """spread the postconditions of one function over several jobs"""
    if part is None and labels is None:
        return
    import zlib
    i, n = part or (0, 1)
    ob, oc = ex.oblige, ex.oblige_clause

    def mine(kind, key, lab):
        return kind != 'post' or ((labels is None or lab in labels) and zlib.crc32(key.encode()) % n == i)

    def oblige(st, label, goal, kind, desc='', cases=None):
        if mine(kind, desc, label):
            return ob(st, label, goal, kind, desc, cases)
        return True

    def oblige_clause(st, cl, kind, view=None):
        if mine(kind, cl.key, cl.label):
            return oc(st, cl, kind, view)
        return True
    ex.oblige, ex.oblige_clause = oblige, oblige_clause


def verify(E, ex, con, st, args, name):
    """the body against its contract"""
    s0 = st.copy()
    ends = []
    for s, r in ex.run(con.name, st, args):
        ev = E.errv(s)
        post, (fa, fr) = wrap_posts(con, E, s0, s, r, ev, args)
        for lab, key, f in post:
            ex.oblige(s.copy(), lab, f, 'post', key)
        for a in fa + fr:
            if a.kinds == ['page', 'idx'] and s.gh['cont'] is s0.gh['cont']:
                continue
            ex.oblige_clause(s.copy(), a, 'post')
        v0, v = E.V(s0), E.V(s)
        same(E, ex, s, v0, [f for f in ALLF if f not in con.fields], 'inv', con.name)
        ends.append((s, r))
    return ends


def job_prepare_head(j):
    ex, E = setup(j)
    if not has('prepare_head', 2):
        return
    st, g, k = E.st, E.g, E.k
    st.gh['anyfail'], st.gh['ckfresh'] = fresh('anyfail', 1), fresh('ckfresh', 1)
    for lab, key, f in PH.pre(E, st, None):
        st.assume(f)
    v0 = E.V(st)
    s0 = st.copy()
    D_ = bv(k['DHARA_JOURNAL_F_DIRTY'], 8)
    ex.cand_fn = lambda *a: ph_cands(E, s0, *a)
    verify(E, ex, PH, st, [E.jp, E.errarg(st)], 'prepare_head')


def ph_cands(E, s0, ex, f, L, entry, s, ph0, ph):
    g, k = E.g, E.k
    v0, v = E.V(entry), E.V(s)
    D_ = bv(k['DHARA_JOURNAL_F_DIRTY'], 8)
    it = z3.Extract(31, 0, s.gh['#it'])
    b0, b1 = g.blk(v0.head), g.blk(v.head)
    dist = ite(z3.UGE(b1, b0), b1 - b0, b1 + g.nb - b0)
    out = [C('inv', land(g.user(v.head), le(v.ts, v0.head, v.head)), 'head forward'),
           C('inv', lor(v.head == v0.head, land(g.al_b(v.head), g.al_b(v0.head))), 'head aligned or same'),
           C('inv', imp(g.same_b(v.head, v.ts), land(v.head == v0.head, z3.UGE(v.head, v.ts))), 'not in ts block'),
           C('inv', v.bb_current == ite(z3.ULT(v.head, v0.head), b1, v0.bb_current + it), 'bad block count'),
           C('inv', v.bb_last == ite(z3.ULT(v.head, v0.head), v0.bb_current + g.nb - b0, v0.bb_last), 'last bad block count'),
           C('inv', epoch1(g, v0, v), 'epoch'),
           C('inv', lor(land(v.flags == v0.flags, v.head == v0.head), v.flags == v0.flags | D_), 'dirty'),
           C('inv', dist == it, 'distance'),
           A('inv', ['page'], lambda x: imp(land(v.head != v0.head, g.user(x), inwin(v.ts, v0.head, x, v.head)), entry.gh['bad'](g.blk(x))), 'skipped bad')]
    return out


def reaches(ex, f, blocks, names, seen=None):
    seen = set() if seen is None else seen
    for b in blocks:
        for ins in f.blocks[b]:
            if ins.op == 'call':
                if ins.x in names:
                    return True
                g = ex.modfuncs.get((id(f.module), ins.x)) or ex.funcs.get(ins.x)
                if g is not None and ins.x not in ex.handlers and ins.x not in seen:
                    seen.add(ins.x)
                    if reaches(ex, g, g.blocks, names, seen):
                        return True
    return False


def cands(E, s0, extra=None):
    """candidates by what a loop does: skipping bad blocks, or trying to write"""
    def fn(ex, f, L, entry, s, ph0, ph):
        if not reaches(ex, f, L.blocks, ('dhara_nand_prog', 'dhara_nand_copy')):
            return ph_cands(E, s0, ex, f, L, entry, s, ph0, ph)
        if extra is not None and reaches(ex, f, L.blocks, ('recover_from', 'dhara_nand_copy')):
            return extra(ex, f, L, entry, s, ph0, ph)
        return dump_cands(E, s0, ex, f, L, entry, s, ph0, ph)
    return fn


def dump_cands(E, s0, ex, f, L, entry, s, ph0, ph):
    g, k = E.g, E.k
    v0, v = E.V(entry), E.V(s)
    h0 = E.V(s0).head
    D_ = bv(k['DHARA_JOURNAL_F_DIRTY'], 8)
    it = z3.Extract(31, 0, s.gh['#it'])
    out = [C('inv', land(g.user(v.head), le(v.ts, v0.head, v.head)), 'head forward'),
           C('inv', g.al_b(v.head), 'head aligned'),
           C('inv', lnot(g.same_b(v.head, v.ts)), 'not in ts block'),
           C('inv', epoch1(g, v0, v), 'epoch'),
           C('inv', lor(v.flags == v0.flags, v.flags == v0.flags | D_), 'dirty'),
           C('inv', z3.ULE(s.gh['nprog'] - entry.gh['nprog'], it), 'programs'),
           C('inv', z3.ULE(s.gh['nerase'] - entry.gh['nerase'], it), 'erases'),
           C('inv', lnot(g.same_b(v.head, h0)), 'not in the old block'),
           D('inv', 'cont', lambda p, o: land(z3.ULT(p, g.chip), lor(g.same_b(p, h0), lnot(le(v.ts, v0.head, p)))), entry.gh['cont'], 'contents before the head'),
           A('inv', ['block'], lambda b: imp(entry.gh['failed'](b), s.gh['failed'](b)), 'failed stay'),
           A('inv', ['block'], lambda b: imp(entry.gh['bad'](b), s.gh['bad'](b)), 'bad stay'),
           A('inv', ['block'], lambda b: imp(land(s.gh['bad'](b), lnot(entry.gh['bad'](b))), s.gh['failed'](b)), 'marked have failed')]
    return out


def job_recover_from(j, part=None, labels=None):
    ex, E = setup(j)
    part_of(ex, part, labels)
    if not has(RF.name, RF.nargs):
        return
    st, g, k = E.st, E.g, E.k
    install(E, ex, PH)
    st.gh['anyfail'], st.gh['ckfresh'] = fresh('anyfail', 1), fresh('ckfresh', 1)
    ep = E.errarg(st)
    we = fresh('write_err', 32)
    args = [E.jp, we, ep]
    for lab, key, f in RF.pre(E, st, args):
        st.assume(f)
    for a in jinv_all(E, st):
        ex.assume_clause(st, a)
    v = E.V(st)
    for t in (g.blk(v.head), g.blk(v.root), g.blk(v.recover_root)):
        st.add_term('block', t)
    j.cover('recover_from: precondition satisfiable', st, we == E.E['BAD_BLOCK'])
    s0 = st.copy()
    ex.cand_fn = cands(E, s0)
    verify(E, ex, RF, st, args, 'recover_from')


# ------------------------------------------------------------------ enqueue, copy
def bufarg(E, ex, st, name, n, nullable):
    o = ex.new_obj(st, name, nbytes=n)
    c = fresh(name + 'nn', 1) if nullable else TRUE
    return o, c, (pmaybe(c, pobj(o)) if nullable else pobj(o))


def write_cands(E, s0, x):
    def fn(ex, f, L, entry, s, ph0, ph):
        g, k = E.g, E.k
        v0, v = E.V(s0), E.V(s)
        D_ = bv(k['DHARA_JOURNAL_F_DIRTY'], 8)
        it = z3.Extract(31, 0, s.gh['#it'])
        out = [C('inv', f_, 'inv: ' + k_) for k_, f_ in jinv(E, s)]
        out += jinv_all(E, s)
        out += [C('inv', le(v.ts, v0.head, v.head), 'head forward'),
                C('inv', lor(v.flags == v0.flags, v.flags == v0.flags | D_), 'dirty'),
                C('inv', lor(v.tail == v0.tail, land(v0.root == NONE, lnot(v0.rec), le(v.ts, v0.head, v.tail))), 'tail'),
                C('inv', lor(it == 0, s.gh['anyfail']), 'retried after a failure'),
                C('inv', lor(s.gh['anyfail'], land(*[getattr(v, n_) == getattr(v0, n_) for n_ in JV.F])), 'first attempt'),
                C('inv', lor(lnot(s.gh['anyfail']), g.al_b(v0.head), v0.root == NONE), 'retry only if no page is lost'),
                C('inv', imp(v.head == v0.head, v.flags == v0.flags), 'first attempt (flags)'),
                C('inv', lor(it == 0, g.al_b(v.head)), 'retried on a new block'),
                C('inv', lor(it == 0, lnot(v0.rec)), 'no retry in recovery'),
                C('inv', lor(it == 0, v.dirty), 'retried dirty'),
                C('inv', epoch1(g, v0, v), 'epoch'),
                C('inv', z3.ULE(s.gh['nprog'] - s0.gh['nprog'], it), 'programs'),
                C('inv', z3.ULE(s.gh['ncopy'] - s0.gh['ncopy'], it), 'copies'),
                C('inv', z3.ULE(s.gh['nerase'] - s0.gh['nerase'], it), 'erases'),
                D('inv', 'cont', lambda p, o: land(z3.ULT(p, g.chip), lnot(le(v0.ts, v0.head, p))), s0.gh['cont'], 'held pages'),
                A('inv', ['block'], lambda b: imp(s0.gh['failed'](b), s.gh['failed'](b)), 'failed stay'),
                A('inv', ['block'], lambda b: imp(s0.gh['bad'](b), s.gh['bad'](b)), 'bad stay'),
                A('inv', ['block'], lambda b: imp(land(s.gh['bad'](b), lnot(s0.gh['bad'](b))), s.gh['failed'](b)), 'marked have failed'),
                A('inv', ['page'], lambda y: imp(land(g.user(y), inwin(v.ts, v0.head, y, v.head)), lor(s.gh['bad'](g.blk(y)), s.gh['failed'](g.blk(y)))), 'skipped')]
        return out
    return fn


def job_write(j, copy=False, part=None, labels=None, nodata=None, invs=None):
    labels = labels if labels is None else set(labels) | {'inv'}
    what = 'copy' if copy else 'enqueue'
    ex, E = setup(j)
    part_of(ex, part, labels)
    st, g, k = E.st, E.g, E.k
    assume_inv(E, st)
    install(E, ex, PH)
    install(E, ex, RF)
    v0 = E.V(st)
    x, i, o, y = fresh('x', 32), fresh('i', 64), fresh('o', 64), fresh('y', 32)
    st.assume(z3.ULT(i, 132))
    st.assume(z3.ULT(o, g.psize))
    for t in (x, y):
        st.add_term('page', t)
        st.add_term('block', g.blk(t))
    for t in (o, simp(g.slot(x) + i), simp(16 + i)):
        st.add_term('idx', t)
    for t in (v0.head, v0.root):
        st.add_term('block', g.blk(t))
    mo, mn, mp = bufarg(E, ex, st, 'meta', bv(k['DHARA_META_SIZE'], 64), True)
    ep = E.errarg(st)
    mval = lambda q: ite(mn, st.mem[mo](q), bv(0xff, 8))
    E.newmeta = mval
    E.buf_entry = v0.buf
    if copy:
        src = fresh('src', 32)
        st.assume(land(g.user(src), v0.win(src)))
        args = [E.jp, src, mp, ep]
    else:
        do, dn, dp = bufarg(E, ex, st, 'data', g.psize, True)
        if nodata is not None:
            st.assume(lnot(dn) if nodata else dn)
        args = [E.jp, dp, mp, ep]
    s0 = st.copy()
    ex.cand_fn = cands(E, s0, write_cands(E, s0, x))
    held = land(g.user(x), v0.win(x), v0.root != NONE, le(v0.ts, x, ite(v0.rec, v0.recover_root, v0.root)))
    old = land(g.user(x), v0.win(x))
    prot = land(z3.ULT(x, g.chip), v0.prot(x))
    W = lambda t: '%s: %s' % (what, t)
    hc = g.same_c(x, v0.head)
    rc = land(v0.recover_meta != NONE, g.same_c(x, v0.recover_root))
    mcases = [hc, land(lnot(hc), rc), land(lnot(hc), lnot(rc))]
    for s, r in ex.run('dhara_journal_' + what, st, args):
        v = E.V(s)
        ev = E.errv(s)
        p0 = v.root
        for t in (v.head, p0):
            s.add_term('page', t)
            s.add_term('block', g.blk(t))
        ok = r == 0
        recov = land(r != 0, ev == E.E['RECOVER'])
        stop = land(r != 0, ev != E.E['RECOVER'])
        nofail = lnot(s.gh['anyfail'])
        cp = g.al_c(v.head)
        post = lambda lab, key, f: ex.oblige(s.copy(), lab, f, 'post', W(key))

        def mpost(lab, key, f):
            for n, c in enumerate(mcases):
                s2 = s.copy()
                s2.assume(c)
                ex.oblige(s2, lab, f, 'post', W(key) + ' (case %d)' % n)
        errs = ['RECOVER', 'JOURNAL_FULL', 'TOO_BAD'] + (['ECC'] if copy else [])
        post('err', 'returns 0 or -1', lor(ok, r == bv(-1, 32)))
        post('err', 'fails with one of the documented errors', imp(r != 0, lor(*[ev == E.E[n] for n in errs])))
        post('err', 'success stores no error', imp(land(ok, E.err_nonnull), E.errval(s) == E.errval(s0)))
        post('err', 'recovery is announced only after a failure', imp(recov, s.gh['anyfail']))
        if copy:
            post('err', 'an uncorrectable source page is reported', imp(s.gh['anyecc'], land(r != 0, ev == E.E['ECC'])))
        # success: the page
        post('fifo', 'the new page is a user page after all others', imp(ok, land(p0 != NONE, g.user(p0), le(v0.ts, v0.head, p0))))
        post('fifo', 'the head moves behind it', imp(ok, v.head == g.nu(p0)))
        post('fifo', 'the tail stays', imp(ok, lor(v.tail == v0.tail, land(v0.root == NONE, lnot(v0.rec), le(v0.ts, v0.head, v.tail)))))
        post('fifo', 'every page held stays held', imp(land(ok, old, lor(v0.root != NONE, v.tail == v0.tail)), v.win(x)))
        post('fifo', 'nothing else is held but skipped pages of bad blocks', imp(land(ok, g.user(y), v.win(y), lnot(v0.win(y)), y != p0),
                                                                                   lor(s.gh['bad'](g.blk(y)), s.gh['failed'](g.blk(y)))))
        post('meta', 'the new page has the given metadata', imp(ok, v.metav(p0, i) == mval(i)))
        keepmeta = lnot(land(v0.rec, lnot(v.rec), v0.recover_meta != NONE, g.same_c(x, v0.recover_root)))
        mpost('meta', 'held pages keep their metadata', imp(land(ok, held, keepmeta), v.metav(x, i) == v0.metav(x, i)))
        mpost('meta', 'rewritten pages keep their metadata', imp(land(ok, old, v0.rec, le(v0.ts, x, v0.root), lnot(le(v0.ts, x, v0.recover_root)), lnot(g.same_c(x, v0.recover_root)),
                                                                lnot(land(v0.recover_meta != NONE, g.same_c(x, v0.recover_meta)))), v.metav(x, i) == v0.metav(x, i)))
        post('keep', 'held pages keep their data', imp(prot, v.cont(x, o) == v0.cont(x, o)))
        if copy:
            post('meta', 'the new page has the data of the source', imp(ok, v.cont(p0, o) == v0.cont(src, o)))
        else:
            post('meta', 'the new page has the given data', imp(land(ok, dn), v.cont(p0, o) == s0.mem[do](o)))
        post('meta', 'the cookie stays', imp(land(lor(ok, recov), z3.ULT(i, 4)), v.buf(simp(16 + i)) == v0.buf(simp(16 + i))))
        post('sync', 'dirty until the group is checkpointed', imp(ok, v.dirty == lnot(cp)))
        post('sync', 'a checkpoint closes the group', imp(ok, cp == (s.gh['ncp'] != s0.gh['ncp'])))
        post('sync', 'the synced tail follows a checkpoint outside recovery', imp(ok, v.ts == ite(land(cp, lnot(v.rec)), v.tail, v0.ts)))
        post('recover', 'recovery ends when everything is enumerated and checkpointed', imp(ok, v.rec == land(v0.rec, lnot(land(cp, v0.enumd)))))
        post('recover', 'recovery goes on otherwise', imp(land(ok, v.rec), land(v.recover_root == v0.recover_root, v.recover_next == v0.recover_next,
                                                                                 v.recover_meta == v0.recover_meta, v.enumd == v0.enumd, v.badmeta == v0.badmeta)))
        post('recover', 'a finished recovery retires the failed block', imp(land(ok, v0.rec, lnot(v.rec)), land(
            s.gh['bad'](g.blk(v0.recover_root)), imp(v0.badmeta, s.gh['bad'](g.blk(v0.recover_meta))))))
        post('fmt', 'new epoch at block 0', imp(lor(ok, recov), epoch1(g, v0, v)))
        post('work', 'one page, and a checkpoint if the group is full', imp(land(ok, nofail), land(
            s.gh['ncopy'] - s0.gh['ncopy'] == (1 if copy else 0),
            s.gh['nprog'] - s0.gh['nprog'] == ite(cp, bv(1, 32), bv(0, 32)) + (bv(0, 32) if copy else ite(dn, bv(1, 32), bv(0, 32))))))
        post('work', 'at most one block erased', imp(nofail, z3.ULE(s.gh['nerase'] - s0.gh['nerase'], 1)))
        post('work', 'bounded work', land(z3.ULE(s.gh['nprog'] - s0.gh['nprog'], 18), z3.ULE(s.gh['nerase'] - s0.gh['nerase'], 18), z3.ULE(s.gh['ncopy'] - s0.gh['ncopy'], 9)))
        post('work', 'reads nothing', s.gh['nread'] == s0.gh['nread'])
        # recovery
        post('recover', 'the root returns to the last good page', imp(recov, v.root == ite(v0.rec, v0.recover_root, v0.root)))
        post('recover', 'recovery starts at the block that failed', imp(land(recov, v.rec), land(v.recover_root == v.root, lnot(v.enumd),
                                                                                                  v.recover_next == (v.recover_root & ~g.bm))))
        post('recover', 'a running recovery continues', imp(land(recov, v0.rec), land(v.rec, v.recover_meta == v0.recover_meta)))
        post('recover', 'recovery: the tail stays unless the journal is empty', imp(recov, lor(v.tail == v0.tail, v0.root == NONE)))
        mpost('meta', 'recovery: held pages keep their metadata', imp(land(recov, held), v.metav(x, i) == v0.metav(x, i)))
        post('recover', 'without recovery nothing is lost', imp(land(recov, lnot(v.rec)), land(lnot(v0.rec), v.root == v0.root)))
        # refusal
        post('err', 'refused: nothing changes', imp(land(stop, nofail), land(v.root == v0.root, v.tail == v0.tail, v.ts == v0.ts, v.recover_root == v0.recover_root,
             v.recover_next == v0.recover_next, v.recover_meta == v0.recover_meta, v.rec == v0.rec, v.enumd == v0.enumd, le(v0.ts, v0.head, v.head))))
        mpost('meta', 'refused: held pages keep their metadata', imp(land(stop, nofail, held), v.metav(x, i) == v0.metav(x, i)))
        post('keep', 'a full journal changes nothing on the chip', imp(land(stop, nofail, ev == E.E['JOURNAL_FULL']), land(
            s.gh['nprog'] == s0.gh['nprog'], s.gh['nerase'] == s0.gh['nerase'])))
        live = lor(ok, recov, land(stop, nofail))
        for key, f in jinv(E, s):
            if invs is None or GROUP[key] in invs:
                ex.oblige(s.copy(), 'inv', imp(live, f), 'post', W(key))
        for a in jinv_all(E, s) if invs is None or 'R' in invs else []:
            ex.oblige_clause(s.copy(), A('inv', a.kinds, (lambda fn: lambda *t: imp(live, fn(*t)))(a.fn), W(a.key)), 'post')
        for a in [A('inv', ['block'], lambda b: imp(s0.gh['failed'](b), s.gh['failed'](b)), W('failed blocks stay failed')),
                  A('mark', ['block'], lambda b: imp(s0.gh['bad'](b), s.gh['bad'](b)), W('bad blocks stay bad')),
                  A('mark', ['block'], lambda b: imp(land(s.gh['bad'](b), lnot(s0.gh['bad'](b))), s.gh['failed'](b)), W('only failed blocks are marked bad'))]:
            ex.oblige_clause(s.copy(), a, 'post')


def job_enqueue(j, **kw):
    job_write(j, False, **kw)


def job_copy(j, **kw):
    job_write(j, True, **kw)


# ------------------------------------------------------------------ resume
class Chip:
    """what resume finds: a chip that stays as it is; every answer of the driver is a function of the page or block asked for"""

    def __init__(self, E, ex, st):
        self.E, self.ex, g = E, ex, E.g
        self.g = g
        self.rok = z3.Function('readable', P32, BOOL)
        self.fr = z3.Function('isfree', P32, BOOL)
        self.gfree = z3.Function('groupfree', P32, BOOL)        # by first page: all pages of the group are free
        self.wit = z3.Function('written', P32, P32)             # a page of the group that is not
        self.bad, self.cont = st.gh['bad'], st.gh['cont']
        for nm in ('mark_bad', 'erase', 'prog', 'copy'):
            ex.handlers['dhara_nand_' + nm] = (lambda nm: lambda ex, s, a: self.change(ex, s, nm))(nm)
        ex.handlers['dhara_nand_read'] = self.h_read
        ex.handlers['dhara_nand_is_free'] = self.h_is_free

    def change(self, ex, st, nm):
        ex.oblige(st, 'resume', FALSE, 'pre', 'resume never modifies the chip: ' + nm)
        return [(st, bv(0, 32) if nm != 'mark_bad' else None)]

    def h_is_free(self, ex, st, a):
        self.E.isnand(st, a[0], 'is_free')
        ex.oblige(st, 'proto', z3.ULT(a[1], self.g.chip), 'pre', 'is_free: page on the chip')
        r = fresh('isfree', 32)
        st.assume((r != 0) == self.fr(a[1]))
        st.add_term('page', a[1])
        return [(st, r)]

    def h_read(self, ex, st, a):
        E, g = self.E, self.g
        p, off, n, data = a[1], a[2], a[3], a[4]
        E.isnand(st, a[0], 'read')
        ex.oblige(st, 'proto', z3.ULT(p, g.chip), 'pre', 'read: page on the chip')
        ex.oblige(st, 'proto', land(z3.ULE(n, g.psize), z3.ULE(off, g.psize - n)), 'pre', 'read: offset and length within the page')
        st.add_term('page', p)
        cont = self.cont
        s2 = st.copy()
        st.assume(self.rok(p))
        s2.assume(lnot(self.rok(p)))
        ex.buf_write_range(st, data, n, lambda k: cont(p, simp(off + k)), 'read')
        junk = GUF('eccjunk', [P64], B8S)
        ex.buf_write_range(s2, data, n, lambda k: junk(k), 'read')
        E.seterr(s2, a[5], E.E['ECC'])
        s2.gh['anyecc'] = TRUE
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def groups(self, st):
        """what gfree means"""
        g = self.g
        st.add_forall(['page'], lambda x: land(imp(self.gfree(x & ~g.cm), self.fr(x)), imp(lnot(self.gfree(x)), land(z3.ULE(self.wit(x) - x, g.cm), lnot(self.fr(self.wit(x)))))))

    # vocabulary
    def by(self, p, i):
        return self.cont(p, bv(i, 64))

    def w32(self, p, i):
        return z3.Concat(*[self.by(p, i + k) for k in (3, 2, 1, 0)])

    def valid(self, p):
        return land(self.rok(p), self.by(p, 0) == ord('D'), self.by(p, 1) == ord('h'), self.by(p, 2) == ord('a'))

    def ep(self, p):
        return self.by(p, 3)

    def cp0(self, b):
        return (b << self.g.lb) | self.g.cm

    def good(self, b):
        return land(lnot(self.bad(b)), self.valid(self.cp0(b)))

    def log(self, st, parts=('blocks', 'pages', 'groups', 'cps')):
        """the chip holds a log: blocks of the current pass come first, each with its first checkpoint, in one of them the last page written.
        F first block with a checkpoint, L last block of the pass, np pages of it up to the last one written, C its last checkpoint"""
        g, ex = self.g, self.ex
        self.F, self.L, self.np_, self.C = F, L, np_, C = [fresh(n, 32) for n in ('F', 'L', 'npL', 'C')]
        ng = z3.Function('nextgood', P32, P32)
        E0 = self.E0 = self.ep(self.cp0(F))
        base = L << g.lb
        self.last = last = base + np_ - 1           # the last page written
        self.GL = last & ~g.cm                      # its group
        n2 = ite(((np_ + 1) & g.cm) == 0, np_ + 1, np_)
        self.inb = z3.ULE(n2, g.bm)
        self.nblk = g.nb_next(L)
        self.H = ite(self.inb, base + n2, self.nblk << g.lb)
        st.assume(land(z3.ULT(F, g.nb), z3.ULT(F, self.E.k['DHARA_MAX_RETRIES']), self.good(F), z3.UGE(L, F), z3.ULT(L, g.nb), self.good(L), self.ep(self.cp0(L)) == E0))
        st.assume(land(z3.UGE(np_, 1), z3.ULE(np_, g.bm + 1), lnot(self.fr(last))))
        # consequences, spelled out for the solvers
        st.assume(land(z3.ULT(base, g.chip), z3.ULE(base, last), g.blk(last) == L, g.blk(self.GL) == L, g.al_c(self.GL), z3.ULT(self.GL, g.chip), z3.ULE(self.GL, last), z3.ULE(base, self.GL)))
        st.assume(land(g.blk(C) == L, (C & g.cm) == g.cm, z3.ULE(C, last), z3.ULE(C & ~g.cm, self.GL), self.valid(C), self.ep(C) == E0))
        for t in (F, L):
            st.add_term('block', t)
        for t in (last, C):
            st.add_term('page', t)
        A_ = lambda kinds, fn: st.add_forall(kinds, fn)
        if 'blocks' in parts:
            A_(['block'], lambda b: imp(z3.ULT(b, F), lnot(self.good(b))))
            A_(['block'], lambda b: imp(land(self.good(b), z3.UGE(b, F), z3.ULT(b, g.nb)), z3.ULE(b, L) == (self.ep(self.cp0(b)) == E0)))
            A_(['block'], lambda b: imp(z3.ULE(b, L), land(z3.ULE(b, ng(b)), z3.ULE(ng(b), L), z3.ULT(ng(b) - b, self.E.k['DHARA_MAX_RETRIES']), self.good(ng(b)))))
        if 'pages' in parts:
            A_(['page'], lambda x: imp(land(g.blk(x) == L, z3.UGT(x, last)), self.fr(x)))
        if 'groups' in parts:
            A_(['page'], lambda x: imp(land(g.blk(x) == L, g.al_c(x)), self.gfree(x) == z3.UGT(x, self.GL)))
        if 'cps' in parts:
            A_(['page'], lambda x: imp(land(g.blk(x) == L, (x & g.cm) == g.cm, z3.UGT(x, C), z3.ULE(x & ~g.cm, self.GL)), lnot(land(self.valid(x), self.ep(x) == E0))))
        self.ng = ng

    def derive(self):
        g = self.g
        State.derive = {'block': lambda b: [('page', simp(self.cp0(b)))] + ([('block2', simp(self.ng(b)))] if hasattr(self, 'ng') else [])}


def resume_cands(E, c, log):
    g = E.g

    def fn(ex, f, L_, entry, s, ph0, ph):
        out = []
        v = E.V(s)
        i0 = dict((n, b) for n, (_, b) in enumerate(ph0))
        P = [(n, b) for n, (_, b) in enumerate(ph) if z3.is_bv(b) and b.size() == 32]
        ppc = g.cm + 1
        env = []
        for (fr, nm), x in entry.env.items():
            if fr == ex.cur_frame and z3.is_bv(x) and x.size() == 32 and not z3.is_bv_value(x) and not any(x.eq(y) for _, y in env) and not any(x.eq(b) for _, b in ph0):
                env.append((nm, x))
        hd = v.head
        h0 = E.V(entry).head
        for n, b in P:
            out.append(C('inv', z3.ULT(b, g.nb), 'phi%d: a block' % n))
            out.append(C('inv', z3.ULE(b, ppc), 'phi%d <= pages of a group' % n))
            out.append(C('inv', land(b >= -1, z3.ULT(b + 1, z3.LShR(g.bm, g.lc) + 2)), 'phi%d: a group or -1' % n))
            out.append(C('inv', land(b >= -1, b < g.nb), 'phi%d: a block or -1' % n))
            if log:
                pg = (c.L << g.lb) + (b << g.lc)
                grp = z3.ULE(b, z3.LShR(g.bm, g.lc))
                s.add_term('block', b)
                out += [C('inv', z3.ULE(b, c.L), 'phi%d <= last block' % n), C('inv', z3.UGE(b, c.L), 'phi%d >= last block' % n),
                        C('inv', land(grp, z3.ULE(pg, c.GL)), 'phi%d <= last group' % n), C('inv', land(grp, z3.UGE(pg, c.GL)), 'phi%d >= last group' % n),
                        C('inv', land(grp, z3.UGE(pg, c.C & ~g.cm)), 'phi%d >= last checkpoint' % n)]
            out.append(A('inv', ['block'], lambda x, b=b, n=n: imp(land(z3.UGE(x, i0[n]), z3.ULT(x, b)), lnot(c.good(x))), 'phi%d: no checkpoint up to it' % n))
            out.append(A('inv', ['page'], lambda x, b=b, n=n: imp(land(z3.UGE(x, i0[n]), z3.ULT(x, b)), c.fr(x)), 'phi%d: free up to it' % n))
            for nm, y in env:
                out.append(A('inv', ['page'], lambda x, b=b, y=y: imp(z3.ULT(x - y, b), c.fr(x)), 'phi%d: free pages from %s' % (n, nm)))
            al = hd & ~g.cm
            out.append(A('inv', ['page'], lambda x, b=b, y=al: imp(land(z3.UGE(x - y, ppc - b), z3.ULT(x - y, ppc)), c.fr(x)), 'phi%d: free pages at the end of the group' % n))
        for nm, y in [('head', hd)] + [('phi%d' % n, b) for n, b in P]:
            out.append(C('inv', land(z3.ULT(y, g.chip), g.al_c(y)), nm + ': starts a group'))
            out.append(C('inv', g.same_b(y, h0), nm + ': in the same block'))
            if log:
                out.append(C('inv', land(g.blk(y) == c.L, z3.UGE(y, c.GL), lor(y == c.GL, land(c.inb, z3.ULE(y, c.H)))), nm + ': between the last group and the first free page'))
        return out
    return fn


class FCB:
    """find_checkblock(j, blk, where, err): the first block from blk on with a readable first checkpoint, among a few"""
    name, nargs = 'find_checkblock', 4
    fields = []
    bound = {}

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        g, R = E.g, E.k['DHARA_MAX_RETRIES']
        blk, w = a[1], out
        ok = r == 0
        return [(None, 'returns 0 or -1', lor(ok, r == bv(-1, 32))),
                (None, 'finds a block with a readable first checkpoint', imp(ok, land(z3.UGE(w, blk), z3.ULT(w - blk, R), z3.ULT(w, g.nb), c.good(w)))),
                ('block', 'finds the first one', lambda x: imp(land(ok, z3.UGE(x, blk), z3.ULT(x, w)), lnot(c.good(x)))),
                ('block', 'fails only if there is none', lambda x: imp(land(lnot(ok), z3.UGE(x, blk), z3.ULT(x - blk, R), z3.ULT(x, g.nb)), lnot(c.good(x)))),
                (None, 'reports too many bad blocks', imp(lnot(ok), err == E.E['TOO_BAD']))]

    @staticmethod
    def pre(E, c, st, v, a, log):
        return [('the first block is on the chip', z3.ULE(a[1], E.g.nb))]

    @staticmethod
    def buf(E, c, a, r, out):
        return lambda i: c.cont(c.cp0(out), i)


class CPF:
    """cp_free(j, first_user)"""
    name, nargs = 'cp_free', 2
    fields = []

    @staticmethod
    def pre(E, c, st, v, a, log):
        return [('a group of the chip', land(z3.ULT(a[1], E.g.chip), E.g.al_c(a[1])))]

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        return [(None, 'tells whether all pages of the group are free', (r != 0) == c.gfree(a[1]))]


class FLC:
    """find_last_checkblock(j, first)"""
    name, nargs = 'find_last_checkblock', 2
    fields = []

    @staticmethod
    def pre(E, c, st, v, a, log):
        return [('the first block with a checkpoint', land(a[1] == c.F, v.epoch == c.E0) if log else z3.ULT(a[1], E.g.nb))]

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        return [(None, 'finds the last block of the pass' if log else 'finds a block', r == c.L if log else z3.ULT(r, E.g.nb))]

    @staticmethod
    def buf(E, c, a, r, out):
        return None


class FLG:
    """find_last_group(j, blk)"""
    name, nargs = 'find_last_group', 2
    fields = []

    @staticmethod
    def pre(E, c, st, v, a, log):
        return [('the last block', a[1] == c.L if log else z3.ULT(a[1], E.g.nb))]

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        g = E.g
        return [(None, 'finds the last group written' if log else 'finds a group of the block', r == c.GL if log else land(g.blk(r) == a[1], g.al_c(r), z3.ULT(r, g.chip)))]


class FR:
    """find_root(j, start, err)"""
    name, nargs = 'find_root', 3
    fields = ['root']

    @staticmethod
    def pre(E, c, st, v, a, log):
        g = E.g
        return [('the last group written', land(a[1] == c.GL, v.epoch == c.E0) if log else land(g.al_c(a[1]), z3.ULT(a[1], g.chip)))]

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        g = E.g
        if log:
            return [(None, 'succeeds', r == 0), (None, 'the root is the page before the last checkpoint', v.root == c.C - 1)]
        rp = v.root + 1
        return [(None, 'returns 0 or -1', lor(r == 0, r == bv(-1, 32))),
                (None, 'the root is the page before a checkpoint of the same block', imp(r == 0, land(z3.ULT(rp, g.chip), (rp & g.cm) == g.cm, g.same_b(rp, a[1]), c.valid(rp), c.ep(rp) == v0.epoch))),
                (None, 'reports too many bad blocks', imp(r != 0, err == E.E['TOO_BAD']))]

    @staticmethod
    def buf(E, c, a, r, out):
        return (lambda i: c.cont(out + 1, i))

    out = 'root'


class FH:
    """find_head(j, start, err)"""
    name, nargs = 'find_head', 3
    fields = ['head', 'tail', 'epoch', 'bb_current', 'bb_last']

    @staticmethod
    def pre(E, c, st, v, a, log):
        g = E.g
        return [('the last group written', a[1] == c.GL if log else land(g.al_c(a[1]), z3.ULT(a[1], g.chip)))]

    @staticmethod
    def spec(E, c, v0, v, a, r, out, err, log):
        g = E.g
        sb = g.blk(a[1])
        nb_ = g.nb_next(sb)
        nxt = nb_ << g.lb
        end = land(v.head == nxt, lor(nb_ == 0, lnot(g.same_b(v.head, a[1]))))
        wrap = land(end, nb_ == 0) if not log else land(lnot(c.inb), nb_ == 0)
        res = [(None, 'succeeds', r == 0),
               (None, 'the tail moves only out of the block of the head', v.tail == (ite(land(lnot(c.inb), g.same_b(v0.tail, v.head)), g.nb_next(g.blk(v0.tail)) << g.lb, v0.tail) if log else v.tail)),
               (None, 'a new pass starts when the head wraps', land(v.epoch == v0.epoch + ite(wrap, bv(1, 8), bv(0, 8)), v.bb_current == ite(wrap, bv(0, 32), v0.bb_current),
                                                                   v.bb_last == ite(wrap, v0.bb_current, v0.bb_last)) if log else TRUE)]
        if log:
            res.append((None, 'the head is the first user page after everything programmed', v.head == c.H))
        else:
            res.append((None, 'the head is a user page, in the block or at the start of the next', land(g.user(v.head), lor(g.same_b(v.head, a[1]), v.head == nxt))))
        return res


RFUN = [FCB, CPF, FLC, FLG, FR, FH]


def resume_use(E, c, ex, log, skip=()):
    """callees by contract, where they exist with the expected signature"""
    g = E.g

    def mk(X):
        def h(ex, st, a):
            v0 = E.V(st)
            if X is CPF:
                st.add_term('page', a[1])
            for key, f in X.pre(E, c, st, v0, a, log):
                ex.oblige(st.copy(), 'resume', f, 'pre', X.name + ': ' + key)
            res = []
            for rv in ([bv(0, 32), bv(-1, 32)] if X in (FCB, FR) and not (X is FR and log) else [fresh('r_' + X.name, 32)] if X in (CPF, FLC, FLG) else [bv(0, 32)]):
                s = st.copy()
                for f in X.fields:
                    s.setcell(E.j, E.joff + E.k['off'][f], E.k['size'][f], fresh('rs_' + f, 8 * E.k['size'][f]))
                out = None
                if X is FCB:
                    out = fresh('found', 32)
                    if rv.as_long() == 0:
                        for gd, o, off in a[2].alts:
                            if o is not None:
                                ex.store1(s, o, off, out, 4, gd, X.name)
                        s.add_term('block', out)
                    s.add_term('block', a[1])
                    if log and hasattr(c, 'ng'):
                        s.add_term('block', c.ng(a[1]))
                v = E.V(s)
                if X is FR:
                    out = v.root
                    s.add_term('page', simp(v.root + 1))
                if hasattr(X, 'buf'):
                    fn = X.buf(E, c, a, rv, out) if rv.num_args() == 0 and z3.is_bv_value(rv) and rv.as_long() == 0 else None
                    if fn is None:
                        fn = GUF('rsjunk', [P64], B8S)
                    ex.buf_write_range(s, pobj(E.buf), g.psize, lambda i, fn=fn: fn(i), X.name)
                e = fresh('rserr', 32)
                if X.nargs >= 3 and X is not FH:
                    E.seterr(s, a[X.nargs - 1], e)
                for kind, key, f in X.spec(E, c, v0, v, a, rv, out, e, log):
                    if kind is None:
                        s.assume(f)
                    else:
                        s.add_forall([kind], f)
                res.append((s, rv))
            return res
        return h
    for X in RFUN:
        if X not in skip and has(X.name, X.nargs):
            ex.handlers[X.name] = mk(X)


PARTS = {'find_checkblock': (), 'cp_free': (), 'find_last_checkblock': ('blocks',), 'find_last_group': ('groups',), 'find_root': ('cps',), 'find_head': ('pages',)}


def job_resume_fn(j, name, log=True):
    """one of the functions resume is made of"""
    X = [x for x in RFUN if x.name == name][0]
    if not has(name, X.nargs):
        return
    ex, E = setup(j)
    st, g, k = E.st, E.g, E.k
    c = Chip(E, ex, st)
    if X is CPF:
        c.groups(st)
    elif X is not FCB and log:
        c.log(st, PARTS[name])
        j.cover('a log', st)
    c.derive()
    resume_use(E, c, ex, log, skip=(X,))
    if X is FCB:
        ex.loop_hook = lambda *a: 'unroll'
    args = [E.jp]
    loc = None
    if X is FCB:
        loc = Obj('where', 'cells', 4)
        st.mem[loc] = {0: Cell(4, fresh('where0', 32))}
        args += [fresh('blk', 32), pobj(loc)]
    else:
        args.append(fresh('arg', 32))
    if X.nargs >= 3:
        args.append(E.errarg(st))
    for key, f in X.pre(E, c, st, E.V(st), args, log):
        st.assume(f)
    if X is FH and not log:
        st.assume(z3.ULT(E.V(st).tail, g.chip))
    if X is FH:
        st.assume(g.user(E.V(st).tail))
    ex.cand_fn = resume_cands(E, c, log and X not in (FCB, CPF))
    v0 = E.V(st)
    i = fresh('i', 64)
    if X is CPF:
        st.add_term('page', args[1])
        st.add_term('page', simp(c.wit(args[1])))
    for s, r in ex.run(name, st, args):
        v = E.V(s)
        out = s.mem[loc][0].val if loc is not None else v.root
        err = E.errv(s) if X.nargs >= 3 else None
        for kind, key, f in X.spec(E, c, v0, v, args, r, out, err, log):
            s2 = s.copy()
            if X is FCB and kind is not None and k['DHARA_MAX_RETRIES'] <= 32:
                # the few blocks looked at, one by one
                for n in range(k['DHARA_MAX_RETRIES']):
                    x = simp(args[1] + n)
                    s2 = s.copy()
                    s2.add_term(kind, x)
                    ex.oblige(s2, 'resume', f(x), 'post', name + ': %s (%d)' % (key, n))
                x = fresh('x_' + kind, 32)
                w = z3.ULT(out - args[1], k['DHARA_MAX_RETRIES'])
                ex.oblige(s.copy(), 'resume', imp(r == 0, w), 'post', name + ': looks at a few blocks only')
                continue
            if kind is not None:
                x = fresh('x_' + kind, 32)
                s2.add_term(kind, x)
                f = f(x)
            ex.oblige(s2, 'err' if key.startswith('reports') else 'resume', f, 'post', name + ': ' + key)
        if hasattr(X, 'buf'):
            b = X.buf(E, c, args, r, out)
            if b is not None:
                ex.oblige(s.copy(), 'resume', imp(land(r == 0, z3.ULT(i, g.psize)), v.buf(i) == b(i)), 'post', name + ': leaves the checkpoint in the buffer')
        same(E, ex, s, v0, [f for f in ALLF if f not in X.fields], 'resume', name)


def job_resume(j, log=True):
    """dhara_journal_resume, on a chip that holds a log, or (log=False) on any chip"""
    ex, E = setup(j)
    st, g, k = E.st, E.g, E.k
    c = Chip(E, ex, st)
    used = [X for X in RFUN if has(X.name, X.nargs)]
    parts = set(p for X in RFUN if X not in used for p in PARTS[X.name]) | {'blocks'}
    if log:
        c.log(st, parts)
        st.gh['np'] = gupd(st.gh['np'], lambda b: b == c.L, lambda b: c.np_)
    if CPF not in used:
        c.groups(st)
    c.derive()
    resume_use(E, c, ex, log)
    i = fresh('i', 64)
    ep = E.errarg(st)
    if log:
        C_ = c.C
        T = c.w32(C_, 4)
        # the checkpoint was written by a journal whose invariant held
        st.assume(land(g.user(T), imp(g.same_b(T, C_), z3.ULT(T, C_)), imp(g.blk(T) == c.nblk, c.inb)))
        st.add_term('block', bv(0, 32))
        j.cover('a log with a tail in another block', st, g.blk(T) != c.L)
        j.cover('a log that ends at a block boundary', st, c.np_ == g.bm + 1)
        j.cover('a log with a group that was not finished', st, z3.UGT(c.GL, C_))
    ex.cand_fn = resume_cands(E, c, log)
    s0 = st.copy()
    for s, r in ex.run('dhara_journal_resume', st, [E.jp, ep]):
        v = E.V(s)
        post = lambda key, f, lab='resume': ex.oblige(s.copy(), lab, f, 'post', 'resume: ' + key)
        ok = r == 0
        post('returns 0 or -1', lor(ok, r == bv(-1, 32)))
        post('outside recovery and clean', v.flags == 0)
        post('no recovery state', land(v.recover_root == NONE, v.recover_next == NONE, v.recover_meta == NONE))
        post('the synced tail is the tail', v.ts == v.tail)
        post('fails into an empty journal', imp(lnot(ok), land(v.head == 0, v.tail == 0, v.root == NONE, v.epoch == 0, v.bb_current == 0, v.bb_last == z3.LShR(g.nb, 6))))
        post('fails into an empty buffer', imp(land(lnot(ok), z3.ULT(i, g.psize)), v.buf(i) == 0xff))
        post('reports a missing checkpoint', imp(land(lnot(ok), E.err_nonnull), E.errval(s) == E.E['TOO_BAD']), 'err')
        post('the head is a user page', g.user(v.head))
        post('filler for the records of the next group', imp(land(z3.UGE(i, 20), z3.ULT(i, g.psize)), v.buf(i) == 0xff))
        if not log:
            rp = v.root + 1
            post('the root is the page before a readable checkpoint', imp(ok, land(z3.ULT(rp, g.chip), (rp & g.cm) == g.cm, c.valid(rp))))
            post('the cookie is that of the checkpoint', imp(land(ok, z3.ULT(i, 20)), v.buf(i) == c.cont(rp, i)))
            continue
        post('succeeds', ok)
        post('the root is the page before the last checkpoint', v.root == C_ - 1)
        post('the tail is that of the last checkpoint', v.tail == T)
        post('header and cookie are those of the last checkpoint', imp(z3.ULT(i, 20), v.buf(i) == c.cont(C_, i)))
        wrap = land(lnot(c.inb), c.nblk == 0)
        post('the head is the first user page after everything programmed', v.head == c.H)
        post('the epoch is that of the last checkpoint, plus one if the head wraps', v.epoch == c.E0 + ite(wrap, bv(1, 8), bv(0, 8)))
        post('bad-block counts of the last checkpoint', land(v.bb_current == ite(wrap, bv(0, 32), c.w32(C_, 8)), v.bb_last == ite(wrap, c.w32(C_, 8), c.w32(C_, 12))))
        s.gh['ck_page'], s.gh['dtail'] = C_, T
        check_inv(E, s, desc='resume: ', label='resume')


def job_map_resume(j, log=True):
    """dhara_map_resume over the contract of dhara_journal_resume (job_resume)"""
    ex = j.executor(module('dhara/map.c'), mod())
    E = Env(j, ex, with_map=True)
    st, g, k = E.st, E.g, E.k
    c = Chip(E, ex, st)
    i = fresh('i', 64)
    gr0 = st.mem[E.j][k['mgc']].val
    ck = z3.Function('ckpage', P32, B8S)        # the checkpoint resume finds

    def h(ex, st, a):
        outs = []
        for r in ((0,) if log else (0, -1)):
            s = st.copy()
            for f in ALLF:
                s.setcell(E.j, E.joff + k['off'][f], k['size'][f], fresh('rs_' + f, 8 * k['size'][f]))
            fn = GUF('rsbuf', [P64], B8S)
            ex.buf_write_range(s, pobj(E.buf), g.psize, lambda x, fn=fn: fn(x), 'resume')
            v = E.V(s)
            s.assume(land(v.flags == 0, g.user(v.head)))
            if r:
                s.assume(land(v.head == 0, v.tail == 0, v.root == NONE, v.epoch == 0))
                E.seterr(s, a[1], E.E['TOO_BAD'])
            else:
                s.assume(land(*[v.buf(bv(n, 64)) == ck(bv(n, 32)) for n in range(20)]))
            s.gh['jres'] = E.V(s)
            outs.append((s, bv(r, 32)))
        return outs
    ex.handlers['dhara_journal_resume'] = h
    ep = E.errarg(st)
    for s, r in ex.run('dhara_map_resume', st, [pobj(E.j), ep]):
        v, vj = E.V(s), s.gh['jres']
        post = lambda key, f, lab='resume': ex.oblige(s.copy(), lab, f, 'post', 'map resume: ' + key)
        ok = r == 0
        cnt = s.mem[E.j][k['mcount']].val
        post('returns 0 or -1', lor(ok, r == bv(-1, 32)))
        if log:
            post('succeeds', ok)
        post('the number of sectors is the one in the checkpoint, little-endian at byte 16', imp(ok, cnt == z3.Concat(*[ck(bv(n, 32)) for n in (19, 18, 17, 16)])))
        post('an empty map if there is no checkpoint', imp(lnot(ok), land(cnt == 0, v.root == NONE)))
        post('reports a missing checkpoint', imp(land(lnot(ok), E.err_nonnull), E.errval(s) == E.E['TOO_BAD']), 'err')
        post('the collection ratio stays', s.mem[E.j][k['mgc']].val == gr0)
        for f in ALLF:
            post('%s is what the journal restored' % f, getattr(v, f) == getattr(vj, f))
        post('the checkpoint stays in the buffer', imp(z3.ULT(i, g.psize), v.buf(i) == vj.buf(i)))
