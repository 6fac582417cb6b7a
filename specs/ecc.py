"""Contracts of the ECC library: CRC32, Hamming, GF(2^13), BCH."""
import z3
import job, os
from job import *

B8 = z3.BitVecSort(8)
B64 = z3.BitVecSort(64)
POLY = 0xedb88320       # IEEE 802.3, reflected


# ------------------------------------------------------------------ helpers
def inbuf(st, ex, name, length):
    o = ex.new_obj(st, name, nbytes=length)
    return o


def same_buf(ex, st, label, o, b0, desc):
    i = fresh('i', 64)
    ex.oblige(st.copy(), label, imp(z3.ULT(i, o.size), st.mem[o](i) == b0(i)), 'frame', desc)


# ------------------------------------------------------------------ CRC32
def crc_step(c, b):
    """one byte of the inverted-representation IEEE CRC32"""
    x = z3.ZeroExt(24, z3.Extract(7, 0, c) ^ b)
    for _ in range(8):
        x = z3.If(z3.Extract(0, 0, x) == 1, z3.LShR(x, 1) ^ bv(POLY, 32), z3.LShR(x, 1))
    return z3.LShR(c, 8) ^ x ^ bv(0xff000000, 32)


def crc_step_i(c, b):
    x = (c ^ b) & 0xff
    for _ in range(8):
        x = (x >> 1) ^ POLY if x & 1 else x >> 1
    return (c >> 8) ^ x ^ 0xff000000


def fold_cands(specs):
    """loop invariants `phi == S(i)` for every integer phi against every ghost fold S"""
    def gen(ex, f, L, entry, s, ph0, ph):
        out = []
        ints = [(n, v) for n, (_, v) in enumerate(ph) if z3.is_bv(v)]
        idxs = []
        for n, v in ints:
            if v.size() in (32, 64):
                idxs.append(('phi%d' % n, v if v.size() == 64 else z3.SignExt(32, v)))
        idxs.append(('it', s.gh['#it']))
        for nm, S, w in specs:
            for inm, ix in idxs:
                for n, v in ints:
                    if v.size() >= w:
                        r = S(ix)
                        ext = r if v.size() == w else z3.ZeroExt(v.size() - w, r)
                        out.append(C('inv', v == ext, 'phi%d==%s(%s)' % (n, nm, inm)))
                    if v.size() < w:
                        out.append(C('inv', v == z3.Extract(v.size() - 1, 0, S(ix)), 'phi%d==lo %s(%s)' % (n, nm, inm)))
        return out
    return gen


class Fold:
    """ghost recursive function S(0)=init, S(k+1)=step(S(k), data(k), k), unfolded (with one unit of fuel) at
    every index it is evaluated at"""

    def __init__(self, name, w, init, step, data):
        self.d = z3.Function(name + '!%d' % next(_c()), B64, z3.BitVecSort(w))
        self.w, self.init, self.step, self.data = w, init, step, data

    def __call__(self, k):
        return self.d(k)

    def axioms_at(self, k):
        """S(k+1) = step(S(k),data(k),k);   S(0)=init"""
        return [self.d(bv(0, 64)) == self.init,
                self.d(simp(k + 1)) == self.step(self.d(k), self.data(k), k)]


import itertools
_cc = itertools.count()


def _c():
    return _cc


class FoldCut:
    """candidate generator that also supplies the unfolding of the folds at the loop index"""

    def __init__(self, folds, extra=None):
        self.folds, self.extra = folds, extra

    def __call__(self, ex, f, L, entry, s, ph0, ph):
        out = []
        ints = [(n, v) for n, (_, v) in enumerate(ph) if z3.is_bv(v)]
        idxs = [('it', s.gh['#it'])]
        for nm, ix in idxs:
            for S in self.folds:
                for ax in S.axioms_at(ix):
                    s.assume(ax)
                for ax in S.axioms_at(simp(ix - 1)):
                    s.assume(ax)
                r = S(ix)
                for n, v in ints:
                    w = v.size()
                    e = r if w == S.w else z3.ZeroExt(w - S.w, r) if w > S.w else z3.Extract(w - 1, 0, r)
                    out.append(C('inv', v == e, 'phi%d==%s' % (n, S.name)))
        if self.extra:
            out += self.extra(ex, s, ph)
        return out


def mkfold(name, w, init, step, data):
    F = Fold(name, w, init, step, data)
    F.name = name
    return F


def job_crc(j):
    m = module('ecc/crc32.c')
    ex = j.executor(m)
    st = State()
    n = fresh('len', 64)
    st.assume(z3.ULE(n, bv(1 << 40, 64)))
    o = inbuf(st, ex, 'block', n)
    c0 = fresh('carry', 32)
    b0 = st.mem[o]
    S = mkfold('CRC', 32, c0, lambda s, d, k: crc_step(s, d), b0)
    for ax in S.axioms_at(bv(0, 64)):
        st.assume(ax)
    ex.cand_fn = FoldCut([S])
    j.cover('crc32 precondition', st, n == 7)
    outs = ex.run('crc32_nand', st, [pobj(o), n, c0])
    for s, r in outs:
        ex.oblige(s, 'crc', r == S(n), 'post', 'crc32_nand(block,len,c) equals the fold of the IEEE 802.3 byte step')
        same_buf(ex, s, 'crc', o, b0, 'crc32_nand leaves the block unchanged')


def job_crc_lemmas(j):
    ex = j.executor()
    c, c2 = z3.BitVecs('c c2', 32)
    b, b2 = z3.BitVecs('b b2', 8)
    j.lemma('crc', 'erased byte is a fixed point: step(0xffffffff,0xff) = 0xffffffff',
            crc_step(bv(0xffffffff, 32), bv(0xff, 8)) == bv(0xffffffff, 32))
    j.lemma('crc', 'step is affine: difference depends only on the differences',
            crc_step(c, b) ^ crc_step(c2, b2) ^ crc_step(c ^ c2, b ^ b2) ^ bv(0xff000000, 32) == 0)
    j.lemma('crc', 'step is injective in the carried checksum', imp(crc_step(c, b) == crc_step(c2, b), c == c2))
    j.lemma('crc', 'step is injective in the byte', imp(crc_step(c, b) == crc_step(c, b2), b == b2))
    # linear part
    def lin(c, b):
        return crc_step_i(c, b) ^ 0xff000000
    # bursts: the 32 columns of the 4-byte linear map are independent
    cols = []
    for pos in range(4):
        for bit in range(8):
            s = 0
            for k in range(4):
                s = lin(s, (1 << bit) if k == pos else 0)
            cols.append(s)
    basis = {}
    rank = 0
    for v in cols:
        while v:
            h = v.bit_length() - 1
            if h not in basis:
                basis[h] = v
                rank += 1
                break
            v ^= basis[h]
    j.table('crc', 'any error confined to 4 consecutive bytes changes the checksum (rank of the 4-byte map is 32)', rank == 32)
    # weight <= 3 over 4096 message bits + 32 checksum bits (Hamming distance 4)
    nbytes = 512
    res = []
    # residue of bit (k from the end)
    cur = [lin(0, 1 << b) for b in range(8)]
    for k in range(nbytes):
        res += cur
        cur = [lin(x, 0) for x in cur]
    res += [1 << i for i in range(32)]
    import numpy as np
    a = np.array(res, dtype=np.uint64)
    ok = (a != 0).all() and len(np.unique(a)) == len(a)
    srt = np.sort(a)
    hit = 0
    for i in range(len(a)):
        x = a[i + 1:] ^ a[i]
        p = np.searchsorted(srt, x)
        p[p == len(srt)] = 0
        hit += int((srt[p] == x).sum())
    j.table('crc', 'no error of weight 1, 2 or 3 within 4096 message bits + 32 checksum bits is undetected', bool(ok and hit == 0))


# ------------------------------------------------------------------ Hamming
def pairmask(pos, w=12):
    """24-bit signature of bit position pos (BV): bit 2m set iff bit m of pos is set, else bit 2m+1"""
    parts = []
    for m in reversed(range(w)):
        x = z3.Extract(m, m, pos)
        parts.append(z3.Concat(~x, x))
    return z3.Concat(*parts)


def ham_byte(b, k):
    """contribution of byte value b at index k (BV64, <512)"""
    base = z3.Extract(8, 0, k)
    r = bv(0, 24)
    for i in range(8):
        r = r ^ z3.If(z3.Extract(i, i, b) == 1, pairmask(z3.Concat(base, bv(i, 3))), bv(0, 24))
    return r


def par8(b):
    x = z3.Extract(0, 0, b)
    for i in range(1, 8):
        x = x ^ z3.Extract(i, i, b)
    return x == 1


def ham_folds(data):
    G = mkfold('H24', 24, bv(0, 24), lambda s, d, k: s ^ ham_byte(d, k), data)
    COL = mkfold('COL', 8, bv(0, 8), lambda s, d, k: s ^ d, data)
    LN = mkfold('LINE', 16, bv(0, 16), lambda s, d, k: z3.If(par8(d), s ^ z3.Extract(15, 0, k), s), data)
    LB = mkfold('LBAR', 16, bv(0, 16), lambda s, d, k: z3.If(par8(d), s ^ ~z3.Extract(15, 0, k), s), data)
    return G, COL, LN, LB


def ham_rel(G, COL, LN, LB, k):
    """H24(k) expressed with the row/column accumulators (proved by induction in job_ham_lemmas)"""
    col, ln, lb = COL(k), LN(k), LB(k)
    out = []
    for m in range(9):                       # byte-index bits -> signature bits 2(m+3), 2(m+3)+1
        out.append(z3.Extract(2 * (m + 3), 2 * (m + 3), G(k)) == z3.Extract(m, m, ln))
        out.append(z3.Extract(2 * (m + 3) + 1, 2 * (m + 3) + 1, G(k)) == z3.Extract(m, m, lb))
    masks = [0xaa, 0x55, 0xcc, 0x33, 0xf0, 0x0f]
    for n, mk in enumerate(masks):
        out.append((z3.Extract(n, n, G(k)) == 1) == par8(col & bv(mk, 8)))
    return land(*out)


def job_ham_lemmas(j):
    ex = j.executor()
    data = GUF('data', [B64], B8)
    F = ham_folds(data)
    k = z3.BitVec('k', 64)
    ax0 = [a for f in F for a in f.axioms_at(bv(0, 64))]
    axk = [a for f in F for a in f.axioms_at(k)]
    j.lemma('hamming', 'row/column decomposition of the signature: base case', ham_rel(*F, bv(0, 64)), ax0)
    j.lemma('hamming', 'row/column decomposition of the signature: step',
            imp(land(z3.ULT(k, 512), ham_rel(*F, k)), ham_rel(*F, simp(k + 1))), axk)
    p, q = z3.BitVecs('p q', 12)
    s = z3.BitVec('s', 24)
    pm = pairmask(p)
    # decoding facts about the signature code
    j.lemma('hamming', 'a one-bit signature is a valid pattern (each pair is 01 or 10), never zero or a power of two',
            land(pm != 0, (pm & (pm - 1)) != 0, *[z3.Extract(2 * m + 1, 2 * m, pm) != 0 for m in range(12)],
                 *[z3.Extract(2 * m + 1, 2 * m, pm) != 3 for m in range(12)]))
    j.lemma('hamming', 'signatures of distinct positions differ in a whole pair',
            imp(p != q, lor(*[z3.Extract(2 * m + 1, 2 * m, pm ^ pairmask(q)) == 3 for m in range(12)])))
    e = z3.BitVec('e', 24)
    pow2 = land(e != 0, (e & (e - 1)) == 0)
    j.lemma('hamming', 'a data error plus an ECC-bit error is not a valid single-error pattern',
            imp(pow2, land((pm ^ e) != 0, ((pm ^ e) & ((pm ^ e) - 1)) != 0,
                           lor(*[lor(z3.Extract(2 * m + 1, 2 * m, pm ^ e) == 0, z3.Extract(2 * m + 1, 2 * m, pm ^ e) == 3) for m in range(12)]))))


def ham_setup(j, maxlen=512):
    m = module('ecc/hamming.c')
    ex = j.executor(m)
    st = State()
    n = fresh('len', 64)
    st.assume(z3.ULE(n, maxlen))
    o = inbuf(st, ex, 'chunk', n)
    b0 = st.mem[o]
    F = ham_folds(b0)
    for f in F:
        for a in f.axioms_at(bv(0, 64)):
            st.assume(a)
    st.assume(ham_rel(*F, n))     # lemma, proved by induction in job_ham_lemmas
    ex.cand_fn = FoldCut(F[1:] + (F[0],))
    return ex, st, n, o, b0, F


def ecc24(st, o):
    b = st.mem[o]
    return z3.Concat(b(bv(2, 64)), b(bv(1, 64)), b(bv(0, 64)))


def job_ham_generate(j):
    ex, st, n, o, b0, F = ham_setup(j)
    e = ex.new_obj(st, 'ecc', nbytes=bv(3, 64))
    j.cover('hamming_generate precondition', st, n == 512)
    for s, r in ex.run('hamming_generate', st, [pobj(o), n, pobj(e)]):
        ex.oblige(s, 'hamming', ecc24(s, e) == ~F[0](n), 'post', 'hamming_generate writes the inverted 24-bit signature of the chunk')
        same_buf(ex, s, 'hamming', o, b0, 'hamming_generate leaves the chunk unchanged')


def job_ham_syndrome(j):
    ex, st, n, o, b0, F = ham_setup(j)
    e = ex.new_obj(st, 'ecc', nbytes=bv(3, 64))
    e0 = ecc24(st, e)
    j.cover('hamming_syndrome precondition', st, n == 512)
    for s, r in ex.run('hamming_syndrome', st, [pobj(o), n, pobj(e)]):
        ex.oblige(s, 'hamming', r == z3.ZeroExt(8, ~F[0](n) ^ e0), 'post',
                  'hamming_syndrome is the difference between the computed and the stored signature')
        same_buf(ex, s, 'hamming', o, b0, 'hamming_syndrome leaves the chunk unchanged')
        same_buf(ex, s, 'hamming', e, st.mem[e], 'hamming_syndrome leaves the ECC unchanged')


def job_ham_repair(j):
    m = module('ecc/hamming.c')
    ex = j.executor(m)
    st = State()
    n = fresh('len', 64)
    st.assume(z3.ULE(n, 512))
    o = inbuf(st, ex, 'chunk', n)
    b0 = st.mem[o]
    syn = fresh('syn', 32)
    st.assume(z3.Extract(31, 24, syn) == 0)
    s24 = z3.Extract(23, 0, syn)
    j.cover('hamming_repair precondition', st, n == 512)
    p = fresh('p', 12)
    outs = ex.run('hamming_repair', st, [pobj(o), n, syn])
    for s, r in outs:
        i = fresh('i', 64)
        now, was = s.mem[o](i), b0(i)
        inr = z3.ULT(i, n)
        pos64 = z3.ZeroExt(52, p)
        byte, bit = z3.LShR(pos64, 3), z3.Extract(7, 0, pos64 & 7)
        pow2 = land(s24 != 0, (s24 & (s24 - 1)) == 0)
        ex.oblige(s.copy(), 'hamming', imp(s24 == 0, land(r == 0, imp(inr, now == was))), 'post', 'zero syndrome: success, data unchanged')
        ex.oblige(s.copy(), 'hamming', imp(pow2, land(r == 0, imp(inr, now == was))), 'post', 'single error in the ECC bits: success, data unchanged')
        ex.oblige(s.copy(), 'hamming', imp(land(s24 == pairmask(p), z3.ULT(byte, n)),
                  land(r == 0, imp(inr, now == z3.If(i == byte, was ^ (bv(1, 8) << bit), was)))), 'post',
                  'signature of bit p: success and exactly bit p is flipped')
        allpat = land(*[lor(z3.Extract(2 * m + 1, 2 * m, s24) == 1, z3.Extract(2 * m + 1, 2 * m, s24) == 2) for m in range(12)])
        ex.oblige(s.copy(), 'hamming', imp(land(s24 != 0, lnot(pow2), lnot(allpat)), land(r != 0, imp(inr, now == was))), 'post',
                  'any other syndrome (in particular every double error): failure reported, data unchanged')
        ex.oblige(s.copy(), 'hamming', imp(r != 0, imp(inr, now == was)), 'post', 'a reported failure never modifies the data')


# ------------------------------------------------------------------ GF(2^13)
import numpy as np
import tempfile
from evalnp import evalnp
import llir
GPOLY = 0x201b


def np_mulx(a):
    r = a << np.uint64(1)
    return np.where(r & np.uint64(8192), r ^ np.uint64(GPOLY), r)


def np_mul(a, b):
    """carry-less product modulo x^13+x^4+x^3+x+1 -- the specification of multiplication"""
    a, b = np.asarray(a).astype(np.uint16), np.asarray(b).astype(np.uint16)
    r = np.zeros(np.broadcast(a, b).shape, dtype=np.uint16)
    t = a.copy()
    for i in range(13):
        r ^= t * ((b >> np.uint16(i)) & np.uint16(1))
        t = (t << np.uint16(1)) ^ ((t >> np.uint16(12)) * np.uint16(GPOLY))
    return r.astype(np.uint64)


def z_mulx(a):
    r = z3.ZeroExt(16, a) << 1
    r = z3.If(z3.Extract(13, 13, r) == 1, r ^ bv(GPOLY, 32), r)
    return z3.Extract(15, 0, r)


def z_mul(a, b):
    r = bv(0, 16)
    for i in range(12, -1, -1):
        r = z_mulx(r)
        r = z3.If(z3.Extract(i, i, b) == 1, r ^ a, r)
    return r


WRAP = '''
#include "ecc/gf13.h"
gf13_elem_t v_mul(gf13_elem_t a, gf13_elem_t b) { return gf13_mul(a, b); }
gf13_elem_t v_div(gf13_elem_t a, gf13_elem_t b) { return gf13_div(a, b); }
gf13_elem_t v_divx(gf13_elem_t a) { return gf13_divx(a); }
gf13_elem_t v_mulx(gf13_elem_t a) { return gf13_mulx(a); }
'''


def wrapmod(defines=()):
    fd, fn = tempfile.mkstemp(suffix='.c')
    os.write(fd, WRAP.encode())
    os.close(fd)
    try:
        return llir.load_c(fn, [REPO], defines)
    finally:
        os.unlink(fn)


def tables_of(m):
    """constant tables indexed symbolically are read through a function symbol interpreted by the actual initializer"""
    tabs, interp = {}, {}
    for g, (ty, init, const) in m.globals.items():
        if ty is not None and init is not None and const and ty.k == 'arr' and ty.el.k == 'i' and ty.n >= 1024 and init[0] == 'agg':
            vals = np.array([x[1] & ((1 << ty.el.n) - 1) for x in init[1]], dtype=np.uint64)
            F = z3.Function('tab_' + g, B64, z3.BitVecSort(ty.el.n))
            tabs[g] = F
            interp['tab_' + g] = (lambda vals: lambda i: vals[np.minimum(i, np.uint64(len(vals) - 1)).astype(np.int64)])(vals)
    return tabs, interp


class TabEx(Executor):
    """obligations of the small-domain GF functions are decided by complete evaluation over the domain"""
    pass


def gf_jobs(j, defines, label):
    w = wrapmod(defines)
    m = module('ecc/gf13.c', defines)
    tabs, interp = tables_of(m)
    doms = {}
    allv = np.arange(8192, dtype=np.uint64)

    def exhaust(desc, st_facts, goal, avars, guard):
        """evaluate facts => goal for every value of the 13-bit arguments"""
        ok, bad = True, ''
        full = imp(land(*st_facts), goal)
        if len(avars) == 1:
            r = evalnp(full, {avars[0]: allv}, interp)
            r = np.logical_or(np.broadcast_to(r, (8192,)), np.logical_not(guard(allv)))
            if not r.all():
                ok, bad = False, '%s = %d' % (avars[0], int(np.argmin(r)))
        else:
            for b0 in range(0, 8192, 256):
                A, B = allv[:, None], allv[None, b0:b0 + 256]
                r = evalnp(full, {avars[0]: A, avars[1]: B}, interp)
                r = np.logical_or(np.broadcast_to(r, (8192, 256)), np.logical_not(guard(A, B)))
                if not r.all():
                    i = np.unravel_index(int(np.argmin(r)), r.shape)
                    ok, bad = False, '%s = %d, %s = %d' % (avars[0], i[0], avars[1], b0 + i[1])
                    break
        return j.table(label, desc, ok, bad)

    def runfn(name, nargs, spec, guard, desc, uf=None):
        ex = j.executor(w, m)
        ex.tables = tabs
        # obligations decided by exhaustive evaluation: collect instead of proving
        coll = []
        st = State()
        args = [z3.BitVec('arg%d' % i, 16) for i in range(nargs)]
        ex.oblige = lambda s, label_, g, kind, d='', cases=None: (coll.append((list(s.facts), g, d)), s.assume(g))[0]
        ex.feasible = lambda s, e: cbool(e) is not False
        if uf:
            uf(ex)
        outs = ex.run(name, st, args)
        names = ['arg%d' % i for i in range(nargs)]
        allg = []
        for fa, g, d in coll:
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            allg.append(imp(land(*fa), g))
        for s, r in outs:
            allg.append(imp(land(*s.facts), r == spec(*args)))
        if notab and name == 'v_mul':
            # Horner fold over the bits of b, cut at the loop
            ex2 = j.executor(w, m)
            st = State()
            a, b = args
            st.assume(z3.ULT(a, 8192))
            st.assume(z3.ULT(b, 8192))
            H = mkfold('HORNER', 16, bv(0, 16), lambda s_, d, k: z_mulx(s_) ^ z3.If((z3.LShR(b, z3.Extract(15, 0, 12 - k)) & 1) == 1, a, bv(0, 16)), lambda k: None)

            def extra(e, s_, ph):
                it = z3.Extract(15, 0, s_.gh['#it'])
                return [C('inv', v == b << it, 'phi%d==b<<it' % n) for n, (_, v) in enumerate(ph) if z3.is_bv(v) and v.size() == 16] + \
                       [C('inv', z3.ULT(v, 8192), 'phi%d in field' % n) for n, (_, v) in enumerate(ph) if z3.is_bv(v) and v.size() == 16]
            ex2.cand_fn = FoldCut([H], extra)
            ex2.force_cut = True
            for ax in H.axioms_at(bv(0, 64)):
                st.assume(ax)
            for s_, r_ in ex2.run(name, st, args):
                ex2.oblige(s_, label, r_ == H(bv(13, 64)), 'post', 'gf13_mul: Horner evaluation of the product modulo x^13+x^4+x^3+x+1')
            return outs
        if notab and name != 'v_divx':
            ex2 = j.executor(w, m)
            pre = [z3.ULT(a, 8192) for a in args]
            for g in allg[:-1]:
                j.lemma(label, 'gf13_%s: side condition' % name[2:], g, pre)
            for s, r in outs:
                j.lemma(label, 'gf13_%s: %s' % (name[2:], desc), r == (z_mul(*args) if nargs == 2 else z_mulx(*args)), pre + s.facts)
            return outs
        ok = exhaust('gf13_%s: %s; all %d memory-safety and overflow side conditions' % (name[2:], desc, len(coll)), [], land(*allg), names, guard)
        if not ok:
            for g in allg:
                exhaust('gf13_%s: part' % name[2:], [], g, names, guard)
        return outs
    nz = lambda a, b=None: (a != 0) if b is None else np.logical_and(a != 0, b != 0)
    anyv = lambda a, b=None: (a >= 0) if b is None else np.logical_and(a >= 0, b >= 0)
    MUL = z3.Function('MUL', z3.BitVecSort(16), z3.BitVecSort(16), z3.BitVecSort(16))
    interp['MUL'] = np_mul
    notab = 'GF13_NO_TABLES' in defines
    dom = anyv if notab else nz
    runfn('v_mul', 2, lambda a, b: MUL(a, b), dom, 'product in GF(2)[x]/(x^13+x^4+x^3+x+1)')
    runfn('v_mulx', 1, lambda a: MUL(a, bv(2, 16)), dom, 'product with x')
    one = bv(1, 16)
    # division: the quotient times the divisor is the dividend
    inv = np.zeros(8192, dtype=np.uint64)
    p = np.uint64(1)
    ex_ = [1]
    for i in range(8190):
        ex_.append(int(np_mulx(np.array([ex_[-1]], dtype=np.uint64))[0]))
    for i, v in enumerate(ex_):
        inv[v] = ex_[(8191 - i) % 8191]
    chk = np_mul(allv, inv)
    j.table(label, 'x generates the multiplicative group: every non-zero element has the inverse used by the specification',
            bool((chk[1:] == 1).all() and len(set(ex_)) == 8191))
    INV = z3.Function('INV', z3.BitVecSort(16), z3.BitVecSort(16))
    interp['INV'] = lambda a: inv[a.astype(np.int64)]

    def uf(ex):
        if notab:
            # callee contract: gf13_mul is the product (proved above for all arguments < 8192; results stay < 8192)
            ex.handlers['gf13_mul'] = lambda e, s, a: [(s, MUL(a[0], a[1]))]
    if notab:
        # a * INV-chain: evaluated on the divisor alone, multiplication by a is the last call
        ex = j.executor(w, m)
        st = State()
        a, b = z3.BitVec('arg0', 16), z3.BitVec('arg1', 16)
        ex.feasible = lambda s, e: cbool(e) is not False
        ex.handlers['gf13_mul'] = lambda e, s, x: [(s, MUL(x[0], x[1]))]
        ex.force_unroll = True
        ex.oblige = lambda s, l_, g, k_, d='', cases=None: s.assume(g)
        outs = ex.run('v_div', st, [a, b])
        for s, r in outs:
            okk = True
            env = {'arg0': np.uint64(1), 'arg1': allv}
            v = evalnp(r, env, interp)
            okk = bool((np.broadcast_to(v, (8192,))[1:] == inv[1:]).all())
            j.table(label, 'gf13_div: 1/b is the inverse of b for all non-zero b', okk)
            rng = np.random.RandomState(1)
            okb = True
            for b0 in range(0, 8192, 256):
                v = evalnp(r, {'arg0': allv[:, None], 'arg1': allv[None, b0:b0 + 256]}, interp) if b0 % 1024 == 0 else None
                if v is not None:
                    e = np_mul(allv[:, None], inv[b0:b0 + 256][None, :])
                    okb = okb and bool(np.logical_or(v == e, allv[None, b0:b0 + 256] == 0).all())
            j.table(label, 'gf13_div: a/b = a * (1/b)', okb)
    else:
        runfn('v_div', 2, lambda a, b: MUL(a, INV(b)), nz, 'a/b is the product of a with the inverse of b')
    if notab:
        runfn('v_divx', 1, lambda a: MUL(a, INV(bv(2, 16))), dom, 'quotient by x')
    else:
        runfn('v_divx', 1, lambda a: MUL(a, INV(bv(2, 16))), dom, 'quotient by x')


def job_gf_tables(j):
    gf_jobs(j, (), 'gf13')


def job_gf_notables(j):
    gf_jobs(j, ('GF13_NO_TABLES',), 'gf13')


# ------------------------------------------------------------------ BCH
BCH = [('bch_1bit', 1), ('bch_2bit', 2), ('bch_3bit', 3), ('bch_4bit', 4)]


def bch_def(m, name):
    ty, init, _ = m.globals[name]
    v = [x[1] for x in init[1]]
    f = dict(zip(('syns', 'generator', 'degree', 'ecc_bytes'), v))
    return f


def bch_offsets():
    return probe(['ecc/bch.h'], ['offsetof(struct bch_def, %s)' % k for k in ('syns', 'generator', 'degree', 'ecc_bytes')])


def bch_step(g):
    def step(s, d, k):
        r = s ^ z3.ZeroExt(56, d ^ bv(0xff, 8))
        for _ in range(8):
            r = z3.LShR(z3.If(z3.Extract(0, 0, r) == 1, r ^ bv(g, 64), r), 1)
        return r
    return step


def job_bch_defs(j):
    """the generators: degree, and alpha^1..alpha^(2t) are roots (BCH bound: minimum distance >= 2t+1)"""
    ex = j.executor()
    m = module('ecc/bch.c')
    pw = [1]
    for i in range(8190):
        v = pw[-1] << 1
        pw.append(v ^ GPOLY if v & 8192 else v)
    for nm, t in BCH:
        d = bch_def(m, nm)
        deg, g = d['degree'], d['generator']
        j.table('bch', '%s: generator has degree %d with both end coefficients set' % (nm, deg),
                deg == 13 * t and (g & 1) == 1 and (g >> deg) == 1)
        j.table('bch', '%s: 2t syndromes, ECC bytes hold the remainder, code fits 1016 data bytes in 8191 bits' % nm,
                d['syns'] == 2 * t and 8 * d['ecc_bytes'] >= deg and d['ecc_bytes'] <= 7 and 8 * 1016 + deg <= 8191)
        ok = True
        for e in range(1, 2 * t + 1):
            # coefficient of x^i is bit deg-i (reciprocal form: LSB is the highest-order term)
            s1 = 0
            for i in range(deg + 1):
                if (g >> (deg - i)) & 1:
                    s1 ^= pw[(i * e) % 8191]
            s2 = 0
            for i in range(deg + 1):
                if (g >> i) & 1:
                    s2 ^= pw[(i * e) % 8191]
            ok = ok and (s2 == 0)
        j.table('bch', '%s: alpha^1..alpha^%d are roots of the generator (BCH bound: distance >= %d)' % (nm, 2 * t, 2 * t + 1), ok)
        # erased data: remainder stays 0
        s0 = bv(0, 64)
        j.lemma('bch', '%s: erased chunk has remainder 0 (passes with erased ECC)' % nm, bch_step(g)(s0, bv(0xff, 8), None) == 0)
        x, y = z3.BitVecs('x y', 64)
        p, q = z3.BitVecs('p q', 8)
        st = bch_step(g)
        lim = bv(1 << deg, 64)
        j.lemma('bch', '%s: the remainder stays below 2^degree' % nm, imp(z3.ULT(x, lim), z3.ULT(st(x, p, None), lim)))


def bch_setup(j, nm):
    m = module('ecc/bch.c')
    offs = bch_offsets()
    d = bch_def(m, nm)
    ex = j.executor(m)
    st = State()
    n = fresh('len', 64)
    st.assume(z3.ULE(n, 1016))
    o = inbuf(st, ex, 'chunk', n)
    b0 = st.mem[o]
    e = ex.new_obj(st, 'ecc', nbytes=bv(d['ecc_bytes'], 64))
    R = mkfold('REM', 64, bv(0, 64), bch_step(d['generator']), b0)
    for a in R.axioms_at(bv(0, 64)):
        st.assume(a)

    def extra(ex, s, ph):
        return [C('inv', z3.ULT(v, bv(1 << d['degree'], 64)), 'phi%d < 2^deg' % n) for n, (_, v) in enumerate(ph)
                if z3.is_bv(v) and v.size() == 64]
    ex.cand_fn = FoldCut([R], extra)
    dp = pobj(ex.global_obj(st, m, nm))
    return ex, st, n, o, b0, e, R, d, dp


def job_bch_generate(j, nm='bch_1bit'):
    ex, st, n, o, b0, e, R, d, dp = bch_setup(j, nm)
    j.cover('bch_generate precondition', st, n == 512)
    for s, r in ex.run('bch_generate', st, [dp, pobj(o), n, pobj(e)]):
        b = s.mem[e]
        for i in range(d['ecc_bytes']):
            ex.oblige(s.copy(), 'bch', b(bv(i, 64)) == ~z3.Extract(8 * i + 7, 8 * i, R(n)), 'post',
                      '%s: ECC byte %d is the inverted remainder byte' % (nm, i))
        ex.oblige(s.copy(), 'bch', z3.ULT(R(n), bv(1 << d['degree'], 64)), 'post', '%s: remainder fits the degree' % nm)
        same_buf(ex, s, 'bch', o, b0, 'bch_generate leaves the chunk unchanged')


def job_bch_verify(j, nm='bch_1bit'):
    ex, st, n, o, b0, e, R, d, dp = bch_setup(j, nm)
    e0 = st.mem[e]
    j.cover('bch_verify precondition', st, n == 512)
    nb = d['ecc_bytes']
    stored = z3.Concat(*[~e0(bv(i, 64)) for i in reversed(range(nb))])
    stored = z3.ZeroExt(64 - 8 * nb, stored) & bv((1 << d['degree']) - 1, 64)
    for s, r in ex.run('bch_verify', st, [dp, pobj(o), n, pobj(e)]):
        ex.oblige(s.copy(), 'bch', imp(R(n) == stored, r == 0), 'post', '%s: accepted when the stored remainder matches' % nm)
        ex.oblige(s.copy(), 'bch', imp(R(n) != stored, r == bv(-1, 32)), 'post', '%s: -1 when the stored remainder differs' % nm)
        same_buf(ex, s, 'bch', o, b0, 'bch_verify leaves the chunk unchanged')
        same_buf(ex, s, 'bch', e, e0, 'bch_verify leaves the ECC unchanged')
