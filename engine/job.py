"""Job context: one verification job = one function under contract (or one lemma)."""
import os, sys, time, traceback
import z3
import llir
from sym import *

REPO = os.environ.get('VERIF_REPO', '/repo')
_mods = {}


def module(rel, defines=()):
    key = (rel, tuple(defines))
    if key not in _mods:
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            raise ExtractError('missing source ' + p)
        _mods[key] = llir.load_c(p, [REPO], defines)
    return _mods[key]


def probe(headers, exprs, extra=''):
    """evaluate constant C expressions against /repo's headers (via clang)"""
    import tempfile
    src = ''.join('#include "%s"\n' % h for h in headers) + '#include <stddef.h>\n' + extra + \
        'const long long probe_vals[] = {%s};\n' % ', '.join('(long long)(%s)' % e for e in exprs)
    fd, fn = tempfile.mkstemp(suffix='.c')
    os.write(fd, src.encode())
    os.close(fd)
    try:
        m = llir.parse_module(llir.compile_ll(fn, [REPO]))
    finally:
        os.unlink(fn)
    ty, init, _ = m.globals['probe_vals']
    if init[0] == 'zero':
        return [0] * len(exprs)
    return [x[1] for x in init[1]]


class Job:
    def __init__(self, name, fn, labels=None, **kw):
        self.name, self.fn, self.kw = name, fn, kw


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.error = None
        self.errkind = None
        self.time = 0
        self.info = {}


class J:
    """handed to a job function"""

    def __init__(self, name):
        self.name = name
        self.ex = None
        self.stats = Stats()
        self.res = Result(name)
        self.assumptions = []
        self.covers = []

    def executor(self, *mods, **kw):
        kw.setdefault('deadline', getattr(self, 'deadline', None))
        ex = Executor(list(mods), self.stats, **kw)
        ex.fname = self.name
        ex.obls = self.res.obls
        self.ex = ex
        return ex

    def lemma(self, label, desc, goal, facts=(), timeout=60000):
        """a closed validity"""
        o = Obl(self.name, label, 'lemma', desc)
        ex = self.ex or self.executor()
        k = cbool(goal)
        if k is True:
            o.status, o.backend = 'proved', 'simplifier'
        else:
            o.status, o.backend, o.time, m = ex.prove(list(facts), goal, timeout)
            if m is not None:
                o.model = str(m)[:2000]
        self.res.obls.append(o)
        return o.status == 'proved'

    def table(self, label, desc, ok, detail='', backend='exhaustive-evaluation'):
        """a ground fact decided by complete evaluation of the actual table"""
        o = Obl(self.name, label, 'lemma', desc)
        o.status, o.backend = ('proved' if ok else 'failed'), backend
        o.model = detail
        self.res.obls.append(o)
        return ok

    def cover(self, desc, st, extra=TRUE):
        """vacuity probe: the state's facts must be satisfiable"""
        s = solver_for(60000)
        for f in st.facts:
            s.add(f)
        s.add(extra)
        r = s.check()
        self.covers.append((desc, str(r)))
        return r

    def bad(self, label, desc, detail=''):
        o = Obl(self.name, label, 'structure', desc)
        o.status, o.model = 'failed', detail
        self.res.obls.append(o)


def run_job(name, fn, kw=None, deadline=None):
    """one job; when it fails although a loop-invariant candidate was dropped only because the solvers ran out of time,
    the verdict is not the code's fault: rerun with more patience, and if that still happens call the failures undecided"""
    t0 = time.time()
    out = run_job1(name, fn, kw, deadline)
    if out['undecided'] and any(o['status'] == 'failed' for o in out['obls']):
        left = deadline - time.time() if deadline else 1e9
        if left > 20:
            Executor.patience *= 5
            try:
                out2 = run_job1(name, fn, kw, deadline)
            finally:
                Executor.patience /= 5
            if not out2['error']:
                out = out2
        if out['undecided']:
            for o in out['obls']:
                if o['status'] == 'failed':
                    o['status'] = 'unknown'
        out['time'] = time.time() - t0
    return out


def run_job1(name, fn, kw=None, deadline=None):
    t0 = time.time()
    j = J(name)
    j.deadline = deadline
    try:
        fn(j, **(kw or {}))
    except Unsupported as e:
        j.res.error, j.res.errkind = str(e), 'unsupported'
    except ExtractError as e:
        j.res.error, j.res.errkind = str(e), 'extract'
    except TimeoutError as e:
        j.res.error, j.res.errkind = str(e), 'timeout'
    except KeyError as e:
        j.res.error, j.res.errkind = 'missing: %r %s' % (e, traceback.format_exc()[-1500:]), 'missing'
    except Exception as e:
        j.res.error, j.res.errkind = traceback.format_exc()[-3000:], 'internal'
    r = j.res
    r.time = time.time() - t0
    ex = j.ex
    out = dict(name=name, undecided=ex.undecided if ex else 0, time=r.time, error=r.error, errkind=r.errkind, covers=j.covers, assumptions=j.assumptions,
               solver_time=j.stats.time, queries=j.stats.queries, maxq=j.stats.maxq,
               obls=[dict(func=o.func, label=o.label, kind=o.kind, desc=o.desc, status=o.status, time=o.time,
                          backend=o.backend, model=o.model, notes=list(o.notes)[-30:]) for o in r.obls],
               inlined=sorted(ex.inlined) if ex else [], called=sorted(ex.called) if ex else [],
               cuts=ex.loops_cut if ex else [], unrolled=sorted(set(ex.loops_unrolled)) if ex else [])
    return out


def show(out, verbose=False):
    n = len(out['obls'])
    bad = [o for o in out['obls'] if o['status'] != 'proved']
    print('%-34s %5.1fs solver %5.1fs q=%d obl=%d bad=%d %s' % (out['name'], out['time'], out['solver_time'], out['queries'], n, len(bad),
                                                   ('ERR[%s] ' % out['errkind'] + out['error']) if out['error'] else ''))
    for c in out['covers']:
        if c[1] != 'sat' or verbose:
            print('    cover', c)
    for o in bad[:40]:
        print('    BAD', o['label'], o['kind'], o['desc'][:150], o['status'], o['notes'][-8:])
        if verbose and o['model']:
            print('        ', o['model'][:1500])
    if verbose:
        for f, h, inv in out['cuts']:
            print('    cut', f, h, inv)
        print('    inlined', out['inlined'], 'called', out['called'])
