"""Explores the jobs of one property, replays what it finds, writes evidence."""
import gc
import importlib.util
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
VENV = '/opt/venv/bin/python'
STDLIB = os.path.dirname(os.__file__)


def make_loader():
    import types
    from . import stubs, regex, transform
    std = {n: os.path.join(STDLIB, p) for n, p in {
        '_pydatetime': '_pydatetime.py', 'calendar': 'calendar.py', 'http.client': 'http/client.py',
        'email.utils': 'email/utils.py', 'email._parseaddr': 'email/_parseaddr.py'}.items()}
    stub = {'io': stubs.io_stub, 'zlib': stubs.zlib_stub, 'hashlib': stubs.hashlib_stub,
            'base64': stubs.base64_stub, 'tempfile': stubs.tempfile_stub, 'uuid': stubs.uuid_stub,
            'sys': stubs.sys_stub, 'logging': stubs.logging_stub, 'traceback': stubs.traceback_stub,
            'socket': stubs.socket_stub, 'json': stubs.json_stub, 'time': stubs.time_stub,
            'os': stubs.os_stub, 'os.path': stubs.path_stub, 'shutil': stubs.shutil_stub,
            'math': stubs.math_stub, 'argparse': stubs.argparse_stub, 'fsspec': None, 'brotli': None, 're': regex.make(), 'ssl': types.ModuleType('ssl')}
    imeta = types.ModuleType('importlib.metadata')
    imeta.version = lambda n: '0'
    il = types.ModuleType('importlib')
    il.__path__ = []
    il.metadata = imeta
    stub['importlib'], stub['importlib.metadata'] = il, imeta
    ld = transform.Loader({'warcio': os.path.join(REPO, 'warcio'), 'harness': os.path.join(HERE, 'harness')},
                          stub, std)
    ld.patches = {'_pydatetime': stubs.patch_pydatetime, 'calendar': stubs.patch_calendar, 'http.client': stubs.patch_http_client}
    stub.update(stubs.make_six(ld))
    stub['datetime'] = lambda: ld.load('_pydatetime')
    httpp = types.ModuleType('http')
    httpp.__path__ = []
    import http as _h
    httpp.HTTPStatus = _h.HTTPStatus
    stub['http'] = httpp
    ld.builtins['open'] = stubs.sx_open
    return ld


_LOADER = None


def loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = make_loader()
        gc.collect()
        gc.freeze()
    return _LOADER


class Task(object):
    __slots__ = ('job', 'prefixes')

    def __init__(self, job, prefixes):
        self.job, self.prefixes = job, prefixes


def _profile_files(ld):
    return sorted(os.path.relpath(p, REPO) for p in ld.loaded_files if p.startswith(REPO))


def explore(job, prefixes, slice_s, seed, max_ticks, keep_samples):
    """explore subtrees; returns a result dict"""
    from . import engine as E
    from .session import SymSession, Conc
    ld = loader()
    module, func, params = job
    t_begin = time.time()
    t_end = t_begin + slice_s
    tot = None
    cands = []
    samples = []
    incs = []
    covers = {}
    reasons = {}
    rest = []
    funcs = set()
    rng = random.Random(seed)
    npath = 0
    maxdepth = 0
    while prefixes:
        pre = prefixes.pop()
        e = E.Engine(max_ticks=max_ticks, forced=pre)
        E.set_engine(e)
        first = True
        while True:
            if not first and time.time() > t_end:
                # the tree position is right after backtrack(): current trace is
                # itself an unexplored prefix
                cur = [('D' if d.kind == 'P' else d.kind, d.val) for d in e.trace]
                rest += e.frontier() + [cur]
                break
            first = False
            out = run_path(e, ld, module, func, params, SymSession, funcs if npath < 3 else None)
            npath += 1
            if out[0] == 'incomplete' and len(incs) < 2:
                # what the engine can not follow is run on the real code for one witness of the path
                try:
                    e.active = True
                    e.aborting = False
                    incs.append(dict(inputs=Conc(e, e.small_model(size_terms(e))).vector()))
                except E.EngineSignal:
                    pass
                e.active = False
            maxdepth = max(maxdepth, len(e.trace))
            kind = out[0]
            if kind in ('violated', 'exception', 'steps'):
                stuck = len(out) > 3
                try:
                    e.active = True
                    e.aborting = False
                    vec = Conc(e, e.small_model(size_terms(e), extra=[e.last_neg] if kind == 'violated' and
                                                e.last_neg is not None else [])).vector()
                    cands.append(dict(kind=kind, label=out[1], detail=out[2], inputs=vec))
                except E.EngineSignal:
                    pass
                e.active = False
                if stuck:
                    # cut off at some point of the engine: the rest of the tree is explored afresh
                    rest += e.frontier()
                    break
            elif kind == 'ok':
                for c in set(e.path_covers):
                    covers[c] = covers.get(c, 0) + 1
                if keep_samples and (len(samples) < keep_samples or rng.random() < 0.02):
                    try:
                        e.active = True
                        e.aborting = False
                        c = Conc(e, e.small_model(size_terms(e)))
                        s = dict(inputs=c.vector(), observed=[[n, c.val(x)] for n, x in e.observed])
                        if len(samples) < keep_samples:
                            samples.append(s)
                        else:
                            samples[rng.randrange(keep_samples)] = s
                    except E.EngineSignal:
                        pass
                    e.active = False
            if npath % 200 == 0:
                gc.collect(0)
            if len(cands) >= 6:
                break
            if not e.backtrack():
                break
        for k, x in e.incomplete_reasons.items():
            reasons[k] = reasons.get(k, 0) + x
        if tot is None:
            tot = dict(e.stats)
        else:
            for k, x in e.stats.items():
                tot[k] += x
        if time.time() > t_end:
            rest += prefixes
            break
        if len(cands) >= 6:
            break
    return dict(job=job, stats=tot, cands=cands, samples=samples, covers=covers, reasons=reasons, rest=rest, incs=incs,
                funcs=sorted(funcs), files=_profile_files(ld), depth=maxdepth, s=time.time() - t_begin)


def size_terms(e):
    out = []
    for name, kind, p in e.inputs:
        if kind == 'int':
            out.append(p)
        elif kind.startswith('blob'):
            out.append(p[1])
    return out


PATH_S = 30


class _PathTime(BaseException):
    pass


def _path_time(e):
    e.aborting = True
    raise _PathTime()


def run_path(e, ld, module, func, params, SymSession, funcs):
    from . import engine as E
    e.reset_path()
    ld.reset('harness.' + module)
    e.active = True
    prof = None
    if funcs is not None:
        wl = os.path.join(REPO, 'warcio') + os.sep

        def prof(frame, ev, arg):
            if ev == 'call':
                co = frame.f_code
                if co.co_filename.startswith(wl):
                    funcs.add('%s:%s' % (co.co_filename[len(wl):], co.co_qualname))
    res = ('ok',)
    signal.signal(signal.SIGPROF, lambda *a: _path_time(e))
    signal.setitimer(signal.ITIMER_PROF, PATH_S, 2)
    try:
        if prof:
            sys.setprofile(prof)
        mod = ld.load('harness.' + module)
        S = SymSession(e, ld)
        getattr(mod, func)(S, **params)
        e.stats['completed'] += 1
    except E.PathAbort:
        e.stats['aborted'] += 1
        res = ('aborted',)
    except E.StepLimit:
        e.stats['steplimit'] += 1
        res = ('steps', 'step bound', '')
    except E.Incomplete as x:
        e.incomplete_reasons.setdefault(str(x), 1)
        e.stats['incomplete'] += 1
        res = ('incomplete', str(x))
    except E.CheckViolated as x:
        res = ('violated', x.label, x.detail)
    except (RecursionError, MemoryError, _PathTime) as x:
        # decided by a run of the real code
        x.__traceback__ = None
        e.stats['steplimit'] += 1
        res = ('steps', 'path cut off: ' + type(x).__name__.strip('_'), '', True)
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        where = [f for f in tb if '/warcio/' in f.filename or '/harness/' in f.filename]
        loc = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else '?'
        det = ''.join(traceback.format_exception_only(type(x), x)) if not isinstance(x, KeyError) else 'KeyError'
        det += ''.join(traceback.format_tb(x.__traceback__)[-6:])
        res = ('exception', 'uncaught %s in %s' % (type(x).__name__, loc), det)
        x.__traceback__ = None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if prof:
            sys.setprofile(None)
        e.active = False
        e.stats['paths'] += 1
    return res


# ---------------------------------------------------------------- pool
def _work(args):
    job, prefixes, slice_s, seed, ticks, keep = args
    try:
        return explore(job, prefixes, slice_s, seed, ticks, keep)
    except MemoryError:
        return dict(job=job, error='out of memory')
    except BaseException:
        return dict(job=job, error=traceback.format_exc())


def _init():
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(20000)
    import threading
    gc.disable()


def replay(cases, timeout=15, total=600):
    """outcomes on the real code; a case that used up its processor time is run once more, alone, with more
    of it; running out of wall time decides nothing"""
    rs = _replay(cases, timeout, total)
    for i, r in enumerate(rs):
        if r['outcome'] == 'timeout':
            rs[i] = _replay([cases[i]], timeout * 3, total)[0]
    return rs


def _replay(cases, timeout, total):
    d = os.path.join(HERE, 'out')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'replay_%d_%d.json' % (os.getpid(), time.time_ns()))
    with open(f, 'w') as fh:
        json.dump(dict(cases=cases, timeout=timeout), fh)
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([VENV, '-m', 'symx.replay', f], cwd=HERE, env=env, capture_output=True,
                           timeout=total, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith('[')]
        if not line:
            return [dict(outcome='crash', detail=p.stderr[-2000:], observed=[]) for _ in cases]
        return json.loads(line[-1])
    except subprocess.TimeoutExpired:
        return [dict(outcome='undecided', detail='replay exceeded %ss' % total, observed=[]) for _ in cases]
    finally:
        os.unlink(f)


def jval(x):
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).decode('latin-1')
    if isinstance(x, (list, tuple)):
        return [jval(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jval(y) for k, y in x.items()}
    if isinstance(x, (str, int, bool, type(None))):
        return x
    return repr(x)


def load_jobs(prop, tier):
    """job list of a harness module (imported natively; only jobs() is used)"""
    sys.path.insert(0, HERE)
    import importlib
    m = importlib.import_module('harness.' + prop.lower())
    return m, m.jobs(tier)


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(prop, tier, seed, budget, only=None, verbose=False, nproc=8):
    t0 = time.time()
    mod, jobs = load_jobs(prop, tier)
    if only:
        jobs = [j for j in jobs if only in j[0] + json.dumps(j[1])]
    name = prop.lower()
    ticks = getattr(mod, 'MAX_TICKS', 20000)
    keep = getattr(mod, 'SAMPLES', 2)
    required = set(getattr(mod, 'COVERS', []))
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    deadline = t0 + budget
    agg = dict(paths=0, branches=0, decisions=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
               asserts=0, discharged=0, aborted=0, incomplete=0, realized=0, steplimit=0, completed=0)
    covers, reasons, funcs, files = {}, {}, set(), set()
    samples, incs, per_job, errors = [], [], {}, []
    violations, spurious, known_hits = [], [], {}
    unfinished = 0
    depth = 0
    pool = mp.get_context('fork').Pool(nproc, initializer=_init)
    pending = []
    queue = []
    seen_labels = {}
    nrep = 0
    try:
        order = [(name, f, p) for f, p in jobs]
        queue = [(j, [[]]) for j in order]
        queue.reverse()
        stop = False
        while (queue or pending) and not stop:
            while queue and len(pending) < nproc * 2 and time.time() < deadline:
                j, pre = queue.pop()
                sl = 2.0 if len(queue) < nproc * 2 else 6.0
                sl = min(sl, max(0.5, deadline - time.time()))
                pending.append((j, pre, pool.apply_async(_work, ((j, pre, sl, seed, ticks, keep),))))
            if time.time() >= deadline and queue:
                unfinished += len(queue)
                queue = []
            if not pending:
                break
            done = [x for x in pending if x[2].ready()]
            if not done:
                if time.time() > deadline + 30:
                    unfinished += len(pending)
                    break
                time.sleep(0.005)
                continue
            for x in done:
                pending.remove(x)
                r = x[2].get()
                if 'error' in r:
                    errors.append(dict(job=str(r['job'][1:]), error=r['error']))
                    if verbose:
                        print('ERROR', r['job'], r['error'])
                    continue
                if r['stats']:
                    for k, n in r['stats'].items():
                        agg[k] += n
                jn = '%s %s' % (r['job'][1], json.dumps(r['job'][2], sort_keys=True))
                pj = per_job.setdefault(jn, dict(paths=0, asserts=0, s=0.0))
                if r['stats']:
                    pj['paths'] += r['stats']['paths']
                    pj['asserts'] += r['stats']['asserts']
                pj['s'] += r['s']
                depth = max(depth, r['depth'])
                for k, n in r['covers'].items():
                    covers[k] = covers.get(k, 0) + n
                for k, n in r['reasons'].items():
                    reasons[k] = reasons.get(k, 0) + n
                funcs.update(r['funcs'])
                files.update(r['files'])
                for s in r['samples']:
                    s['job'] = r['job']
                    if sum(1 for t in samples if t['job'] == r['job']) < keep:
                        samples.append(s)
                for s in r['incs']:
                    s['job'] = r['job']
                    if len(incs) < 160 and sum(1 for t in incs if t['job'] == r['job']) < 3:
                        incs.append(s)
                if r['rest']:
                    rest = r['rest']
                    n = min(len(rest), 8)
                    for i in range(n):
                        queue.insert(0, (r['job'], rest[i::n]))
                for c in r['cands']:
                    key = (jn, c['label'])
                    seen_labels[key] = seen_labels.get(key, 0) + 1
                    if seen_labels[key] > 8 or nrep > 200:
                        continue
                    nrep += 1
                    case = dict(module=name, func=r['job'][1], params=r['job'][2], inputs=c['inputs'])
                    rr = replay([case])[0]
                    ok = rr['outcome'] in ('violated', 'exception', 'timeout')
                    if c['kind'] == 'steps' and rr['outcome'] != 'timeout':
                        ok = rr['outcome'] in ('violated', 'exception')
                    rec = dict(case=case, label=c['label'], detail=c['detail'], replay=rr)
                    if not ok:
                        spurious.append(rec)
                        if verbose:
                            print('SPURIOUS', jn, c['label'], c['detail'][:1500], json.dumps(c['inputs'])[:600], rr)
                        continue
                    k = match_known(mod, known, case, rr)
                    if k:
                        known_hits.setdefault(k['id'], []).append(rec)
                        continue
                    violations.append(rec)
                    stop = True
                if stop:
                    break
    finally:
        pool.terminate()
        pool.join()
    # sampled paths against the real code
    validated, mismatches = 0, []
    undec_ok = 0
    if (samples or incs) and not violations:
        nsamp = len(samples)
        samples += incs
        cs = [dict(module=name, func=s['job'][1], params=s['job'][2], inputs=s['inputs']) for s in samples]
        n = min(nproc, max(1, len(cs) // 8))
        from concurrent.futures import ThreadPoolExecutor
        groups = [list(range(i, len(cs), n)) for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda g: replay([cs[i] for i in g]), groups))
        for g, out in zip(groups, rs):
            for i, r in zip(g, out):
                want = jval([list(o) for o in samples[i].get('observed', [])])
                if r['outcome'] in ('violated', 'exception', 'timeout'):
                    k = match_known(mod, known, cs[i], r)
                    if k:
                        known_hits.setdefault(k['id'], []).append(dict(case=cs[i], replay=r))
                        continue
                    # the model missed something the real code does
                    violations.append(dict(case=cs[i], label='real run of a sampled path: ' + r['outcome'],
                                           detail=r['detail'], replay=r))
                elif i >= nsamp:
                    undec_ok += r['outcome'] == 'ok'
                elif r['outcome'] == 'ok' and r['observed'] == want:
                    validated += 1
                else:
                    mismatches.append(dict(case=cs[i], got=r, want=want))
                    if verbose:
                        print('MISMATCH', json.dumps(cs[i])[:800], r, want)
        del samples[nsamp:]
    for k in known:
        # every listed finding is re-confirmed on each run
        for w in k.get('witness', []):
            rr = replay([w])[0]
            if rr['outcome'] in ('violated', 'exception', 'timeout'):
                known_hits.setdefault(k['id'], []).append(dict(case=w, replay=rr))
    missing = sorted(required - set(covers))
    wall = time.time() - t0
    exhaustive = not (unfinished or errors or spurious or agg['incomplete'] or agg['steplimit'] or reasons or violations)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg['paths'], transitions=agg['decisions'],
            traces_validated_against_impl=validated,
            samples=[dict(job=s['job'][1], params=s['job'][2], inputs=jval(s['inputs']),
                          observed=jval(s['observed'])) for s in samples[:6]] or [dict(note='no completed path')],
            exhaustive=exhaustive,
            paths=dict(completed=agg['completed'], infeasible_or_assumed_away=agg['aborted'],
                       undecided=agg['incomplete'], undecided_run_for_real=undec_ok, over_step_bound=agg['steplimit']),
            assertions=dict(checked=agg['asserts'], proved_unsat_or_true=agg['discharged']),
            solver=dict(queries=agg['queries'], sat=agg['sat'], unsat=agg['unsat'], unknown=agg['unknown'],
                        seconds=round(agg['solver_s'], 2), solver='z3 ' + _z3v()),
            branch_points=agg['branches'], deepest_path_decisions=depth,
            functions_encoded=sorted(funcs), files_encoded=sorted(files),
            bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
            jobs=len(jobs), jobs_paths={k: x['paths'] for k, x in sorted(per_job.items())},
            reachability_witnesses=covers, witnesses_missing=missing,
            undecided_reasons=reasons, unfinished_tasks=unfinished,
            spurious_counterexamples=len(spurious), sample_mismatches=len(mismatches), errors=errors[:3],
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d jobs, %d paths (%d completed), %d assertions, %d solver queries %.1fs, '
          'validated %d sampled paths on the real code, exhaustive=%s, %.1fs wall' % (
              prop, tier, len(jobs), agg['paths'], agg['completed'], agg['asserts'], agg['queries'],
              agg['solver_s'], validated, exhaustive, wall))
    if reasons or spurious or mismatches or errors or unfinished or missing or agg['steplimit']:
        print('  undecided: %s; spurious %d; mismatches %d; errors %d; unfinished %d; not reached %s; steplimit %d' % (
            reasons, len(spurious), len(mismatches), len(errors), unfinished, missing, agg['steplimit']))
    if verbose and per_job:
        for k, x in sorted(per_job.items(), key=lambda kv: -kv[1]['s'])[:25]:
            print('   ', x['paths'], '%.1fs' % x['s'], k)
    for k in known:
        if k['id'] in known_hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        rec = violations[0]
        d = os.path.join(HERE, 'out')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_violation.json' % prop)
        with open(p, 'w') as f:
            json.dump(dict(cases=[rec['case']], timeout=30, label=rec['label'], detail=rec['detail'],
                           replay=rec['replay'],
                           how='PYTHONPATH=/verif %s -m symx.replay %s' % (VENV, p)), f, indent=1, default=str)
        print('  %s: %s' % (rec['label'], str(rec['replay']['detail'])[-600:]))
        print('  inputs: %s' % json.dumps(rec['case'])[:1200])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    return 0


def match_known(mod, known, case, rr):
    for k in known:
        fn = getattr(mod, 'known_' + k['id'], None)
        if fn and fn(case, rr):
            return k
    return None


def _z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    'library models: zlib streams behave like a single stored block (any bytes, exact boundaries); '
    'hash functions are injective; blob contents are generic (distinct windows differ)',
    'counterexamples and sampled paths are re-run on the unmodified code with the real libraries',
]
