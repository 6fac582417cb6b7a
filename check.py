#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   -- decide one property against /repo's current tree.

exit 0: every obligation of the property was discharged (or the only undecided parts are covered by the bounded stand-in
        and it found nothing);  exit 1 + VIOLATION line: an obligation failed;  exit 2: the machinery itself failed."""
import json, os, sys, time, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
OUT = os.path.join(HERE, 'out')


def worker(args):
    name, modname, fn, kw, budget = args
    import importlib, job
    return job.run_job(name, getattr(importlib.import_module(modname), fn), kw, deadline=budget)


def skipped(name, error, kind, t=0):
    return dict(name=name, time=t, error=error, errkind=kind, covers=[], assumptions=[], solver_time=0, queries=0, maxq=0,
                obls=[], inlined=[], called=[], cuts=[], unrolled=[])


def run_jobs(jobs, budget, procs=8, on_result=None):
    """jobs: [(name, mod, fn, kw)] -> results in order; a job that overruns is reported as a timeout"""
    ctx = mp.get_context('fork')
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))
    run = {}
    t0 = time.time()
    while pend or run:
        while pend and len(run) < procs:
            i = pend.pop(0)
            q = ctx.SimpleQueue()
            a, b = ctx.Pipe(False)

            def go(i=i, b=b):
                try:
                    b.send(worker(jobs[i] + (t0 + budget,)))
                except Exception as e:
                    b.send(skipped(jobs[i][0], repr(e), 'internal'))
                b.close()
                os._exit(0)
            p = ctx.Process(target=go)
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        done = []
        for i, (p, a, ts) in run.items():
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                p.join(5)
                done.append(i)
            elif not p.is_alive() and not a.poll(0.2):
                done.append(i)
            elif time.time() - t0 > budget + 30:
                p.kill()
                p.join()
                done.append(i)
        for i in done:
            if res[i] is None:
                res[i] = skipped(jobs[i][0], 'worker ended without an answer', 'timeout', time.time() - run[i][2])
            del run[i]
        if on_result and any([on_result(res[i]) for i in done]):
            # a concrete failing input has been found: no need for the rest
            for i, (p, a, ts) in run.items():
                p.kill()
                p.join()
            for i in list(run) + pend:
                res[i] = skipped(jobs[i][0], 'not run: a failing input had been found', 'skipped')
            return res
        if not done:
            time.sleep(0.05)
    return res


def known_findings(pid):
    out = []
    fn = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    jobs = list(P['jobs']) + (list(P.get('jobs_thorough', [])) if tier == 'thorough' else [])
    budget = P.get('budget', {}).get(tier, 560 if tier == 'quick' else 3000)
    labels = P.get('labels')
    common = P.get('common', props.COMMON)
    found = None

    heavy = ['map_try_delete', 'map_trace_path', 'map_try_recover', 'enqueue', 'copy', 'recover_from', 'counts', 'map_append', 'map_copy_sector', 'peek']
    jobs.sort(key=lambda x: next((i for i, h in enumerate(heavy) if x[0].startswith(h)), 99))     # long jobs first

    def on_result(r):
        """the first failed obligation starts the replay search"""
        nonlocal found
        if found is None:
            bad = [o for o in r['obls'] if o['status'] == 'failed' and (labels is None or o['label'] in labels or o['label'] in common)]
            if bad:
                import replays
                found = replays.search(pid, P, bad, tier, seed)
        return bool(found and found.get('failure'))
    res = run_jobs(jobs, budget, on_result=on_result)
    foreign = 0
    obls, failed, unknown, errors, badcov, internal = [], [], [], [], [], []
    for r in res:
        for o in r['obls']:
            if labels is not None and o['label'] not in labels and o['label'] not in common:
                foreign += 1
                continue
            o = dict(o, job=r['name'])
            obls.append(o)
            if o['status'] == 'failed':
                failed.append(o)
            elif o['status'] != 'proved':
                unknown.append(o)
        if r['error'] and r['errkind'] != 'skipped':
            errors.append((r['name'], r['errkind'], r['error']))
        for c in r['covers']:
            if c[1] == 'unsat':
                badcov.append((r['name'], c[0]))
    for e in errors:
        print('[%s] job %s gave up (%s): %s' % (pid, e[0], e[1], e[2][:1500]))
    for o in failed + unknown:
        print('[%s] obligation %s: %s / %s [%s] %s' % (pid, o['status'], o['job'], o['kind'], o['label'], o['desc'][:300]))
    # bounded stand-ins: functions that are out of the verifier's reach
    bounded = []
    viol = None
    for b in P.get('bounded', []):
        br = b(tier, seed)
        bounded.append(br)
        if br.get('failure') and viol is None:
            viol = ('bounded check failed: ' + br['name'], br['failure'])
    if found is None and (failed or unknown or errors):
        import replays
        found = replays.search(pid, P, failed or unknown, tier, seed)
    if found:
        if found.get('failure'):
            viol = ('obligation not discharged; concrete failing input found', found['failure'])
    status = 0
    undecided = []
    rp = os.path.join(OUT, pid + '.replay')
    text = []
    for o in failed + unknown:
        text.append('FAILED OBLIGATION (%s): job %s, %s [%s]\n  %s\n  back end %s, %.2fs\n  path: %s\n  verifier output: %s\n' % (
            o['status'], o['job'], o['kind'], o['label'], o['desc'], o['backend'], o['time'],
            ' ; '.join(map(str, o['notes'])), (o['model'] or '')[:4000]))
    for e in errors:
        text.append('JOB GAVE UP: %s (%s): %s\n' % e)
    if viol:
        status = 1
        text.insert(0, viol[0] + '\n' + viol[1] + '\n')
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
    elif failed:
        status = 1
        text.insert(0, 'no failing input found by the replay search (%s)\n' % (found or {}).get('bound', ''))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    elif unknown or errors:
        undecided = ['%s: %s' % (o['job'], o['desc'][:120]) for o in unknown] + ['%s: %s' % (e[0], e[1]) for e in errors]
        if (found or {}).get('bound') is None:
            status = 2
    if badcov:
        print('[%s] vacuous precondition: %s' % (pid, badcov))
        status = max(status, 2) if status != 1 else 1
    proved = [o for o in obls if o['status'] == 'proved']
    back = {}
    for o in proved:
        back[o['backend']] = back.get(o['backend'], 0) + 1
    fuc = sorted(set(f for r in res for f in r['inlined']))
    cov = dict(
        obligations=len(obls), discharged=len(proved),
        checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
        trusted_base=list(props.TRUSTED) + list(P.get('trusted', [])),
        jobs=[dict(job=r['name'], obligations=len(r['obls']), wall_s=round(r['time'], 2), solver_s=round(r['solver_time'], 2),
                   queries=r['queries'], error=r['error'] and r['errkind'],
                   bodies_executed=r['inlined'], callees_by_contract=r['called'],
                   loops_by_invariant=['%s/%s (%d clauses)' % (a, b, len(c)) for a, b, c in r['cuts']],
                   loops_unrolled_to_static_bound=[str(x) for x in r['unrolled']],
                   vacuity_probes=r['covers']) for r in res],
        functions_under_contract=P.get('functions', fuc), bodies_symbolically_executed=fuc,
        obligations_by_kind={k: sum(1 for o in obls if o['kind'] == k) for k in sorted(set(o['kind'] for o in obls))},
        discharged_by_backend=back, solver_time_s=round(sum(r['solver_time'] for r in res), 2),
        max_query_s=round(max([r['maxq'] for r in res] or [0]), 2),
        obligations_of_other_properties_in_these_jobs=foreign)
    if bounded:
        cov['bounded_standins'] = bounded
    if found is not None:
        cov['replay_search'] = {k: v for k, v in found.items() if k != 'failure'}
    if undecided:
        cov['undecided_fell_back_to_bounded'] = undecided
    if P.get('level', 'proof') == 'other':
        cov['explanation'] = P['explanation']
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=list(P.get('assumptions', [])) + sorted(set(a for r in res for a in r['assumptions'])),
              wall_s=round(time.time() - t0, 2), violations=1 if status == 1 else 0)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('[%s] %s: %d/%d obligations discharged (%s), %d jobs, solver %.1fs, wall %.1fs%s' % (
        pid, tier, len(proved), len(obls), ', '.join('%s %d' % x for x in sorted(back.items())), len(jobs),
        cov['solver_time_s'], ev['wall_s'], '; UNDECIDED -> bounded stand-in: %s' % undecided if undecided else ''))
    if status == 1:
        with open(rp, 'w') as f:
            f.write('\n'.join(text))
        print(text[0][:3000])
        print(line)
    sys.stdout.flush()
    sys.exit(status)


if __name__ == '__main__':
    main()
