"""Machinery shared by all checks: run drivers on the real code, let TLC judge the recorded traces."""
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CTBAYES_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
MAXJOB = 12000000    # bytes of trace judged per job
NPROC = max(2, min(8, os.cpu_count() or 2))

ONE = 10 ** 6
NAN, PINF, NINF, BIG = 2147483647, 2147483646, -2147483646, 2000000000


# ---------------------------------------------------------------- encoding
def fx(v, scale=ONE):
    """A real as TLC sees it: round(v * scale), or a marker for nan, infinities and values out of range."""
    v = float(v)
    if math.isnan(v):
        return NAN
    w = v * scale
    if w > BIG:
        return PINF
    if w < -BIG:
        return NINF
    return int(round(w))


def fxs(a, scale=ONE):
    return [fx(v, scale) for v in np.asarray(a, dtype=float).ravel()]


def fxm(a, scale=ONE):
    return [fxs(r, scale) for r in np.asarray(a, dtype=float)]


def ticks(a, unit):
    """Times that ought to be whole multiples of `unit`; anything else becomes NaN."""
    out = []
    for v in np.asarray(a, dtype=float).ravel():
        q = v / unit
        n = round(q) if math.isfinite(q) else None
        out.append(int(n) if n is not None and abs(q - n) < 1e-6 and abs(n) < BIG else NAN)
    return out


def ints(a):
    out = []
    for v in np.asarray(a).ravel():
        f = float(v)
        out.append(int(f) if f == int(f) and abs(f) < BIG else NAN)
    return out


def ranks(*arrays):
    """Replace reals by their ranks in the union of all given arrays: keeps <, = exactly, drops magnitudes.

    nan is mapped to NaN's marker."""
    flat = [float(v) for a in arrays for v in np.asarray(a, dtype=float).ravel()]
    uni = sorted(set(v for v in flat if not math.isnan(v)))
    pos = {v: i + 1 for i, v in enumerate(uni)}
    return [[pos[float(v)] if not math.isnan(float(v)) else NAN for v in np.asarray(a, dtype=float).ravel()]
            for a in arrays]


def tranks(*arrays, tol=1e-10):
    """Ranks in which neighbours closer than `tol` are the same value (rounding of reversed or reflected paths)."""
    flat = [float(v) for a in arrays for v in np.asarray(a, dtype=float).ravel()]
    uni = sorted(set(v for v in flat if not math.isnan(v)))
    pos, k, last = {}, 0, None
    for v in uni:
        if last is None or not v - last <= tol:
            k += 1
        pos[v], last = k, v
    return [[pos[float(v)] if not math.isnan(float(v)) else NAN for v in np.asarray(a, dtype=float).ravel()]
            for a in arrays]


def rng_for(*key):
    return np.random.default_rng([abs(hash_int(k)) for k in key])


def hash_int(k):
    if isinstance(k, (int, np.integer)):
        return int(k)
    h = 2166136261
    for c in str(k).encode():
        h = (h ^ c) * 16777619 % (1 << 32)
    return h


# ---------------------------------------------------------------- jobs
class Hang(Exception):
    pass


class limit:
    """Raise Hang if the body runs longer than `s` seconds."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise Hang('no answer within %g s' % self.s)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for f in tb:
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            where = '%s:%s in %s' % (os.path.relpath(f.filename, REPO), f.lineno, f.name)
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:200], ' at ' + where if where else '')


def exc_record(job, exc):
    return {'ev': 'Exc', 'job': job, 'what': describe(exc)}


def _run_job(job, path):
    name, fn, kw, timeout = job
    out = []
    try:
        with limit(timeout):
            fn(out, **kw)
    except BaseException as e:  # every failure of the code under test is an observation
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        traceback.print_exc()
        out.append(exc_record(name, e))
    with open(path + '.tmp', 'w') as f:
        size = 0
        for r in out:
            line = json.dumps(r, default=_default) + '\n'
            size += len(line)
            if size > MAXJOB:       # a prefix of a trace is a trace
                break
            f.write(line)
    os.rename(path + '.tmp', path)


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.floating):
        raise TypeError('unencoded float %r' % o)
    raise TypeError(type(o))


def run_jobs(jobs, work, nproc=NPROC, deadline=None):
    """jobs: (name, function(out, **kw), kw, timeout in s). Returns one list of records per job."""
    ctx = mp.get_context('fork')
    todo = list(enumerate(jobs))
    live, res, start = {}, {}, time.time()
    while todo or live:
        late = deadline is not None and time.time() - start > deadline
        if late and todo:
            # far beyond the usual time: something hangs; judge what there is
            for i, job in todo:
                res[i] = []
            todo = []
        while todo and len(live) < nproc:
            i, job = todo.pop(0)
            path = os.path.join(work, 'job%d.ndjson' % i)
            p = ctx.Process(target=_run_job, args=(job, path))
            p.start()
            live[i] = (p, path, job, time.time())
        time.sleep(0.005)
        for i in list(live):
            p, path, job, t0 = live[i]
            if not p.is_alive():
                p.join()
                if os.path.exists(path):
                    with open(path) as f:
                        res[i] = [json.loads(l) for l in f]
                else:
                    res[i] = [{'ev': 'Exc', 'job': job[0], 'what': 'process ended with code %s' % p.exitcode}]
                del live[i]
            elif late or time.time() - t0 > job[3] + 30:
                p.kill()
                p.join()
                res[i] = [{'ev': 'Exc', 'job': job[0], 'what': 'Hang: no answer within %g s' % (time.time() - t0)}]
                del live[i]
    return [res[i] for i in range(len(jobs))]


# ---------------------------------------------------------------- TLC
class TlcError(Exception):
    pass


class TlcTimeout(TlcError):
    pass


def tlc(spec, cfg, work, env=None, workers=1, timeout=600, extra=()):
    """Run TLC on specs/<spec>.tla with specs/<cfg>.cfg; returns (ok, stdout, states, distinct)."""
    meta = os.path.join(work, 'meta_%s_%d_%d' % (cfg, os.getpid(), int(time.time() * 1e6) % 10 ** 9))
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = '-Xss32m -Xmx3g'
    e.update(env or {})
    cmd = ['tlc', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', os.path.join(SPECS, cfg + '.cfg'), *extra,
           os.path.join(SPECS, spec + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        part = ex.stdout.decode(errors='replace') if isinstance(ex.stdout, bytes) else ex.stdout or ''
        raise TlcTimeout(part) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode == 0, p.stdout, gen, dis


def coverage_of(stdout):
    """Action counts from TLC -coverage output: {action: (distinct, total)}"""
    res = {}
    for m in re.finditer(r'<(\w+) line [^>]*>: (\d+):(\d+)', stdout):
        a, b = res.get(m.group(1), (0, 0))
        res[m.group(1)] = (max(a, int(m.group(2))), max(b, int(m.group(3))))
    return res


def check_trace(spec, cfg, records, work, tag='t', nchunk=1, env=None, timeout=3600):
    """Let TLC judge the records with the trace specification.

    Returns (failures, states): failures is a list of (record, [clauses])."""
    # cut at Begin records so that each chunk is a whole number of traces
    cuts = [i for i, r in enumerate(records) if r.get('ev') == 'Begin']
    nchunk = max(1, min(nchunk, len(cuts)))
    chunks, per = [], math.ceil(len(records) / nchunk) if records else 1
    start = 0
    for c in cuts[1:]:
        if c - start >= per:
            chunks.append(records[start:c])
            start = c
    chunks.append(records[start:])
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        recs = chunks[k]
        path = os.path.join(work, '%s_%d.ndjson' % (tag, k))
        fails, states, off = [], 0, 0
        # if TLC cannot evaluate a record, that record is rejected and the rest of the trace is still judged
        for _ in range(20):
            with open(path, 'w') as f:
                for r in recs[off:]:
                    f.write(json.dumps(r, default=_default) + '\n')
            try:
                ok, out, gen, dis = tlc(spec, cfg, work, dict(env or {}, TRACE=path), timeout=timeout)
            except TlcTimeout as ex:
                got = [(recs[off + int(m.group(1)) - 1], json.loads(m.group(2).replace('\\"', '"')))
                       for m in re.finditer(r'"FAIL (\d+) (.*)"', str(ex))]
                return fails + got, states, 'judging %s was not finished within %d s' % (path, timeout)
            states += gen
            for m in re.finditer(r'"FAIL (\d+) (.*)"', out):
                fails.append((recs[off + int(m.group(1)) - 1], json.loads(m.group(2).replace('\\"', '"'))))
            if ok:
                return fails, states, None
            prog = [int(x) for x in re.findall(r'l = (\d+)', out)]
            if not re.search(r'evaluat|overflow|Attempted|nonexistent|CHOOSE', out) or not prog:
                raise TlcError('TLC failed on %s:\n%s' % (cfg, out[-3000:]))
            bad = max(prog)
            fails.append((recs[off + bad - 1], ['unevaluable: ' + _first_error(out)]))
            # continue after the next Begin
            nxt = next((i for i in range(off + bad, len(recs)) if recs[i].get('ev') == 'Begin'), None)
            if nxt is None:
                return fails, states, None
            off = nxt
        return fails, states, None

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, range(len(chunks))))
    return [f for fs, _, _ in res for f in fs], sum(s for _, s, _ in res), [u for _, _, u in res if u]


def _first_error(out):
    i = out.find('Error:')
    return re.sub(r'\s+', ' ', out[i:i + 400]) if i >= 0 else 'error'


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """{key: text} of the findings listed for this property (lines 'known: property=<id> key=<key> <text>')."""
    res = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res
