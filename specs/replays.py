"""Replay search: runs /repo's real code natively, looking for a concrete input on which a failed obligation shows.
Also the bounded stand-ins (functions outside the verifier's reach)."""
import os, subprocess, tempfile, time, shutil, atexit
import job

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vreplay')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
    return _dir


def build(out, srcs, flags):
    cmd = ['clang-18', '-g', '-O1', '-w', '-I', job.REPO, '-I', os.path.join(HERE, 'native')] + flags + srcs + ['-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode == 0, ' '.join(cmd), p.stderr[-3000:]


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')


def run_many(cmds, limit):
    """run commands in parallel, 8 at a time; returns [(cmd, rc, out)]"""
    pend, live, res = list(cmds), [], []
    hit = None          # once a run has failed, the others get a few more seconds
    while pend or live:
        while pend and len(live) < 8:
            c = pend.pop(0)
            f = tempfile.TemporaryFile()
            live.append((c, subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=ENV, stdin=subprocess.DEVNULL), f, time.time()))
        for x in list(live):
            c, p, f, t = x
            rc = p.poll()
            if rc is None and time.time() - t > limit:
                p.kill()
                p.wait()
                rc = -99
            elif rc is None and hit and time.time() - hit > 5:
                p.kill()
                p.wait()
                rc = 0
            if rc is not None:
                f.seek(0)
                res.append((c, rc, f.read(200000).decode('latin1')))
                live.remove(x)
                if rc:
                    hit = hit or time.time()
        if hit:
            pend = []
        time.sleep(0.02)
    return res


def ecc_search(mode, seconds, seed, notables=False, extra=(), n=8, san=True):
    exe = os.path.join(scratch(), 'ecc%d%d' % (notables, san))
    if not os.path.exists(exe):
        ok, cmd, err = build(exe, [os.path.join(HERE, 'native/ecc_replay.c')] +
                             [os.path.join(job.REPO, 'ecc', x) for x in ('bch.c', 'hamming.c', 'crc32.c', 'gf13.c')],
                             (SAN if san else []) + (['-DGF13_NO_TABLES'] if notables else []))
        if not ok:
            return dict(failure=None, bound=None, error=err)
    cmds = [[exe, mode, str(seconds), str(seed * 1000 + i)] + list(map(str, extra)) for i in range(n)]
    res = run_many(cmds, seconds + 120)
    ev = 0
    for c, rc, out in res:
        for l in out.splitlines():
            if ' evaluations, ' in l:
                ev += int(l.split(': ')[1].split()[0])
    for c, rc, out in res:
        if rc != 0:
            return dict(failure='%s\n(build: native/ecc_replay.c + /repo/ecc/*.c%s; run: ecc_replay %s; exit %d%s)' % (
                out[-6000:], ' -DGF13_NO_TABLES' if notables else '', ' '.join(c[1:]), rc,
                ', did not terminate' if rc == -99 else ''), evaluations=ev, bound='')
    return dict(failure=None, evaluations=ev, bound='%d runs of ecc_replay %s for %ss each' % (n, mode, seconds))


def ecc(*modes):
    def f(pid, failing, tier, seed):
        last = None
        for m in modes:
            nt = m.endswith('_nt')
            last = ecc_search(m[:-3] if nt else m, 6 if tier == 'quick' else 40, seed, nt)
            if last.get('failure'):
                return last
        return last
    return f


def dhara_search(profiles, seconds, seed, n=8, tags=()):
    exe = os.path.join(scratch(), 'dhara')
    if not os.path.exists(exe):
        ok, cmd, err = build(exe, [os.path.join(HERE, 'native/dhara_replay.c')] +
                             [os.path.join(job.REPO, 'dhara', x) for x in ('map.c', 'journal.c', 'error.c')], SAN)
        if not ok:
            return dict(failure=None, bound=None, error=err)
    # every process starts with another profile, then cycles through all of them
    cmds = []
    for i in range(n):
        r = i % len(profiles)
        cmds.append([exe, profiles[r:] + profiles[:r], str(seconds), str(seed * 1000 + i)])
    res = run_many(cmds, seconds + 30)
    ev, fails = 0, []
    for c, rc, out in res:
        for l in out.splitlines():
            if ' evaluations, ' in l:
                ev += int(l.split(': ')[1].split()[0])
        if rc != 0:
            tag = 'TERM' if rc == -99 else (out.split('ORACLE ')[1].split(':')[0] if 'ORACLE ' in out else '?')
            fails.append((0 if tag in tags else 1, tag, c, rc, out))
    if fails:
        fails.sort(key=lambda x: x[0])
        _, tag, c, rc, out = fails[0]
        return dict(failure='%s\n(oracles that failed in this search: %s)\n(build: native/dhara_replay.c + /repo/dhara/{map,journal,error}.c; run: dhara_replay %s; exit %d%s)' % (
            out[-9000:], ' '.join(sorted(set(f[1] for f in fails))), ' '.join(c[1:]), rc, ', did not terminate' if rc == -99 else ''),
            evaluations=ev, bound='')
    return dict(failure=None, evaluations=ev, bound='%d runs of dhara_replay, profiles %s, %ss each' % (n, profiles, seconds))


def dhara(profiles, *tags):
    def f(pid, failing, tier, seed):
        return dhara_search(profiles, 45 if tier == 'quick' else 300, seed, 8, tags)
    return f


def search(pid, P, failing, tier, seed):
    r = P.get('replay')
    if r is None:
        return dict(failure=None, bound=None)
    return r(pid, failing, tier, seed)


def bch_repair_bounded(tier, seed):
    """bounded stand-in for bch_repair (decoder correctness: Berlekamp-Massey + root search)"""
    runs = [('bchx', 0, (1, 4)), ('bchx', 0, (4, 3)), ('bchx', 0, (24, 2)), ('bchx', 0, (3, 3)), ('bchx', 0, (200, 1))]
    sec = 12
    if tier == 'thorough':
        runs += [('bchx', 0, (2, 4)), ('bchx', 0, (8, 3)), ('bchx', 0, (1016, 1)), ('bchx', 0, (64, 2)), ('bchx', 0, (3, 4))]
        sec = 240
    tot = 0
    for m, s, extra in runs:
        r = ecc_search(m, s, seed, False, extra, 1, san=False)
        tot += r.get('evaluations', 0)
        if r.get('failure') or r.get('error'):
            return dict(name='bch_repair', failure=r.get('failure') or r['error'], evaluations=tot)
    for nt in (False, True):
        r = ecc_search('bchrepair', sec, seed, nt)
        tot += r.get('evaluations', 0)
        if r.get('failure') or r.get('error'):
            return dict(name='bch_repair', failure=r.get('failure') or r['error'], evaluations=tot)
    return dict(name='bch_repair (BOUNDED, not proved)', evaluations=tot,
                bound='every error pattern of weight <=4 on 1-byte, <=3 on 3/4-byte, <=2 on 24-byte, 1 on 200-byte chunks for '
                      'each of the four codes; random patterns of weight <=t on chunks up to 1016 bytes, both field variants')
