"""Complete evaluation of a quantifier-free VC over a finite domain (numpy back end)."""
import numpy as np
import z3


def M(w):
    return np.uint64((1 << w) - 1)


def evalnp(term, env, interp):
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        st = [(t, False)]
        while st:
            x, done = st.pop()
            k = x.get_id()
            if k in memo:
                continue
            if not done:
                st.append((x, True))
                for c in x.children():
                    if c.get_id() not in memo:
                        st.append((c, False))
                continue
            memo[k] = ap(x, [memo[c.get_id()] for c in x.children()])
        return memo[i]

    def sx(a, w):
        a = a.astype(np.int64) if hasattr(a, 'astype') else np.int64(a)
        if w == 64:
            return a
        return ((a << np.int64(64 - w)) >> np.int64(64 - w))

    def ap(x, a):
        d = x.decl()
        k = d.kind()
        if z3.is_bv_value(x):
            return np.uint64(x.as_long())
        if z3.is_true(x):
            return np.bool_(True)
        if z3.is_false(x):
            return np.bool_(False)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if d.arity() == 0:
                return env[nm]
            return interp[nm.split('!')[0]](*a)
        w = x.size() if z3.is_bv(x) else 1
        cw = x.arg(0).size() if x.num_args() and z3.is_bv(x.arg(0)) else 0
        if k == z3.Z3_OP_BADD:
            r = a[0]
            for y in a[1:]:
                r = r + y
            return r & M(w)
        if k == z3.Z3_OP_BSUB:
            return (a[0] - a[1]) & M(w)
        if k == z3.Z3_OP_BNEG:
            return (np.uint64(0) - a[0]) & M(w)
        if k == z3.Z3_OP_BMUL:
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r & M(w)
        if k == z3.Z3_OP_BAND:
            r = a[0]
            for y in a[1:]:
                r = r & y
            return r
        if k == z3.Z3_OP_BOR:
            r = a[0]
            for y in a[1:]:
                r = r | y
            return r
        if k == z3.Z3_OP_BXOR:
            r = a[0]
            for y in a[1:]:
                r = r ^ y
            return r
        if k == z3.Z3_OP_BNOT:
            return (~a[0]) & M(w)
        if k == z3.Z3_OP_BSHL:
            return np.where(a[1] < w, (a[0] << np.minimum(a[1], np.uint64(63))) & M(w), np.uint64(0))
        if k == z3.Z3_OP_BLSHR:
            return np.where(a[1] < w, (a[0] >> np.minimum(a[1], np.uint64(63))), np.uint64(0))
        if k == z3.Z3_OP_CONCAT:
            r = np.uint64(0)
            for c, y in zip(x.children(), a):
                r = (r << np.uint64(c.size())) | y
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            return (a[0] >> np.uint64(lo)) & M(hi - lo + 1)
        if k == z3.Z3_OP_ZERO_EXT:
            return a[0]
        if k == z3.Z3_OP_SIGN_EXT:
            return sx(a[0], cw).astype(np.uint64) & M(w)
        if k == z3.Z3_OP_ITE:
            return np.where(a[0], a[1], a[2])
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_NOT:
            return np.logical_not(a[0])
        if k == z3.Z3_OP_AND:
            r = a[0]
            for y in a[1:]:
                r = np.logical_and(r, y)
            return r
        if k == z3.Z3_OP_OR:
            r = a[0]
            for y in a[1:]:
                r = np.logical_or(r, y)
            return r
        if k == z3.Z3_OP_IMPLIES:
            return np.logical_or(np.logical_not(a[0]), a[1])
        if k == z3.Z3_OP_XOR:
            return np.logical_xor(a[0], a[1])
        if k == z3.Z3_OP_ULEQ:
            return a[0] <= a[1]
        if k == z3.Z3_OP_ULT:
            return a[0] < a[1]
        if k == z3.Z3_OP_UGEQ:
            return a[0] >= a[1]
        if k == z3.Z3_OP_UGT:
            return a[0] > a[1]
        if k == z3.Z3_OP_SLEQ:
            return sx(a[0], cw) <= sx(a[1], cw)
        if k == z3.Z3_OP_SLT:
            return sx(a[0], cw) < sx(a[1], cw)
        if k == z3.Z3_OP_SGEQ:
            return sx(a[0], cw) >= sx(a[1], cw)
        if k == z3.Z3_OP_SGT:
            return sx(a[0], cw) > sx(a[1], cw)
        raise NotImplementedError(str(d))
    with np.errstate(over='ignore'):
        return go(term)
