import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('CTBAYES_REPO', '/repo'))
import lib  # noqa: E402


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + pid.lower())
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return run(pid, mod, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, mod, tier, seed, work, t0):
    models, states, transitions, runs = [], 0, 0, []
    env = {'WORK': work}
    # 1. exhaustive checks of the specification itself (and the cases it generates for replay)
    for m in mod.models(tier):
        ok, out, gen, dis = lib.tlc(m['spec'], m['cfg'], work, dict(env, **m.get('env', {})),
                                    workers=m.get('workers', 4), extra=['-coverage', '1'] if m.get('coverage') else [])
        if not ok:
            print('MACHINERY: the specification %s does not satisfy its own properties\n%s' % (m['cfg'], out[-4000:]))
            return 2
        states += dis
        transitions += gen
        runs.append({'model': m['cfg'], 'states_generated': gen, 'distinct': dis, 'checked': m.get('checks', '')})
    cases = {}
    for f in os.listdir(work):
        if f.startswith('cases_') and f.endswith('.ndjson'):
            with open(os.path.join(work, f)) as fh:
                cases[f[6:-7]] = [json.loads(l) for l in fh if l.strip()]

    # 2. drive the real code, 3. judge what it did with the trace specification
    jobs = mod.jobs(tier, seed, cases)
    t1 = time.time()
    res = lib.run_jobs(jobs, work, deadline=400 if tier == 'quick' else None)
    t2 = time.time()
    by_spec = {}
    for job, recs in zip(jobs, res):
        spec = getattr(mod, 'SPEC_OF', {}).get(job[0].split(':')[0], mod.TRACE)
        by_spec.setdefault(spec, []).extend(recs)
    failures, ntraces, nrec, samples, unjudged = [], 0, 0, [], []
    for spec, recs in by_spec.items():
        if recs and recs[0].get('ev') != 'Begin':
            recs.insert(0, {'ev': 'Begin', 'id': 'start'})
        fails, gen, open_ = lib.check_trace(spec, spec, recs, work, tag=spec, nchunk=getattr(mod, 'CHUNKS', 4), env=env,
                                            timeout=300 if tier == 'quick' else 3600)
        unjudged += open_
        failures += fails
        transitions += gen
        ntraces += sum(1 for r in recs if r.get('ev') == 'Begin')
        nrec += len(recs)
        kinds = set()
        for r in recs:
            if r['ev'] not in kinds and r['ev'] != 'Begin':
                kinds.add(r['ev'])
                s = json.dumps(r, default=lib._default)
                samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
    t3 = time.time()

    # findings
    known = lib.known_findings(pid)
    seen, viol = set(), []
    for r, clauses in failures:
        k = r.get('key')
        if k in known:
            seen.add(k)
        else:
            viol.append({'clauses': clauses, 'record': r})
    for k in sorted(known):
        if k in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    kinds = {}
    for recs in by_spec.values():
        for r in recs:
            kinds[r['ev']] = kinds.get(r['ev'], 0) + 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {'states': states, 'transitions': transitions, 'traces_validated_against_impl': ntraces,
                       'events_validated': nrec, 'events_by_kind': kinds, 'model_runs': runs,
                       'replayed_cases': {k: len(v) for k, v in cases.items()},
                       'driver_jobs': len(jobs), 'samples': samples[:8],
                       'seconds': {'models': round(t1 - t0, 2), 'driver': round(t2 - t1, 2), 'judging': round(t3 - t2, 2)}},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(lib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(lib.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=lib._default)
    if viol:
        d = os.path.join(lib.VERIF, 'replays', pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'seed%d_%s.json' % (seed, tier))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'command': 'VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (seed, tier, pid),
                       'violations': viol[:50]}, f, indent=1, default=lib._default)
        for v in viol[:5]:
            print('  rejected: %s  in %s' % (v['clauses'], json.dumps(v['record'], default=lib._default)[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if unjudged:
        print('MACHINERY: ' + '; '.join(unjudged))
        return 2
    print('OK property=%s: %d model states, %d events of %d traces validated, %.1f s (models %.1f, driver %.1f, judging %.1f)'
          % (pid, states, nrec, ntraces, time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
