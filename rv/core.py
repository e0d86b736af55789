"""
Check runner.

A check is a module rv.checks.cXX with:

  RULE            text: how cases are made and what makes one non-trivial
  MIN             dict counter-name -> minimum for a verdict (else inconclusive)
  jobs(tier, rng) list of picklable dicts; each is a workload. Reserved keys:
                  'opt' ('o0' | 'full'), 'x64' (bool), 'cost' (scheduling hint)
  run(job, rec)   runs in a worker process, drives the real code and feeds the
                  monitors, which report on `rec`
  final(agg)      optional, in the parent: statistical monitors over the pooled
                  observations; reports on `agg`

Verdicts are three-valued: 0 held on what was observed, 1 violated (with a
VIOLATION line), 3 inconclusive (too little observed) or harness error 2.
"""
import collections, importlib, json, os, pathlib, sys, time, traceback, hashlib
import multiprocessing as mp
import concurrent.futures as cf
import numpy as np

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get('BARTZ_SRC', '/repo/src')
NPROC = int(os.environ.get('RV_NPROC', '0')) or min(8, os.cpu_count() or 1)
XLA_BASE = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
XLA_O0 = ' --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true'


def tojson(x):
    if isinstance(x, dict):
        return {str(k): tojson(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [tojson(v) for v in x]
    if isinstance(x, np.ndarray):
        return tojson(x.tolist()) if x.size <= 64 else f'array{x.shape}'
    if isinstance(x, np.generic):
        return tojson(x.item())
    if isinstance(x, float) and not np.isfinite(x):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Recorder:
    """ What the monitors of one workload observed. """

    def __init__(self, job=None):
        self.job = job
        self.events = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.data = collections.defaultdict(list)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def mark(self, *key):
        """ record a distinct non-trivial case """
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(tojson(kw))

    def violate(self, key, msg, **witness):
        """ key: the mechanism, msg: what was observed """
        if sum(v['key'] == key for v in self.violations) < 3:
            self.violations.append(dict(key=key, msg=str(msg)[:2000], witness=tojson(witness), job=tojson(self.job)))
        self.events['violations_reported'] += 1

    def expect(self, ok, key, msg, **witness):
        self.events['oracle_evaluations'] += 1
        if not ok:
            self.violate(key, msg() if callable(msg) else msg, **witness)
        return ok

    def put(self, name, arr):
        """ pool observations for a statistical monitor """
        self.data[name].append(np.asarray(arr))

    def pooled(self, name):
        a = self.data.get(name, [])
        return np.concatenate([np.ravel(x) for x in a]) if a else np.zeros(0)


# ---------------------------------------------------------------- workers

def _worker_init(flags, x64, stagger):
    os.environ['XLA_FLAGS'] = flags
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['JAX_ENABLE_X64'] = '1' if x64 else '0'
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO_SRC)


def _from_bartz(tb):
    """ does the innermost part of the traceback go through the code under test """
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO_SRC + '/bartz/'):
            return True
        tb = tb.tb_next
    return False


def _worker_run(modname, job):
    import warnings
    warnings.filterwarnings('ignore')
    rec = Recorder(job)
    t = time.time()
    err = None
    try:
        import jax
        if 'bartz' not in sys.modules:
            sys.pycache_prefix = '/nonexistent-pycache' # never use stale bytecode of /repo
            import bartz
            sys.pycache_prefix = None
        import bartz
        assert bartz.__file__.startswith(REPO_SRC), bartz.__file__
        mod = importlib.import_module(modname)
        mod.run(job, rec)
        if job.get('_i', 0) % 4 == 3:
            jax.clear_caches()
    except Exception as e:
        txt = traceback.format_exc()
        if _from_bartz(e.__traceback__) and not isinstance(e, MemoryError):
            rec.violate('raised', f'the code under test raised {type(e).__name__}: {e}'[:600], traceback=txt[-1500:])
        elif isinstance(e, (TypeError, ValueError, IndexError, ZeroDivisionError)):
            # the monitors run through on outputs of the documented layout
            rec.violate('uninterpretable', f'outputs of the code under test have not the documented type or shape: {type(e).__name__}: {e}'[:600], traceback=txt[-1500:])
        else:
            err = txt
    rec.events['job_ms'] += int(1000 * (time.time() - t))
    return dict(events=rec.events, distinct=rec.distinct, violations=rec.violations,
                samples=rec.samples, data=dict(rec.data), err=err, job=job)


def worker_map(modname, jobs, deadline):
    """ run jobs on process pools, yield results; at the deadline, stop """
    groups = collections.defaultdict(list)
    for j in jobs:
        groups[(j.get('opt', 'o0'), bool(j.get('x64')))].append(j)
    tot = sum(len(g) for g in groups.values())
    ctx = mp.get_context('spawn')
    pools, futs = [], {}
    weights = {k: sum(j.get('cost', 1) * (1.7 if k[0] == 'full' else 1) for j in g) for k, g in groups.items()}
    wtot = sum(weights.values())
    try:
        for k, g in sorted(groups.items(), key=lambda kv: -weights[kv[0]]):
            flags = XLA_BASE + (XLA_O0 if k[0] == 'o0' else '')
            nw = max(1, min(len(g), round(NPROC * weights[k] / wtot)))
            pool = cf.ProcessPoolExecutor(nw, mp_context=ctx, initializer=_worker_init, initargs=(flags, k[1], 0))
            pools.append(pool)
            for j in sorted(g, key=lambda j: -j.get('cost', 1)):
                futs[pool.submit(_worker_run, modname, j)] = j
        pending = set(futs)
        while pending:
            left = deadline - time.time()
            if left <= 0:
                yield dict(timeout=len(pending))
                break
            done, pending = cf.wait(pending, timeout=min(left, 5), return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    yield f.result()
                except Exception as e:
                    yield dict(err=f'worker died: {e!r}', job=futs[f])
    finally:
        for p in pools:
            procs = list((p._processes or {}).values())
            p.shutdown(wait=False, cancel_futures=True)
            if time.time() >= deadline:
                for q in procs:
                    q.kill()


# ---------------------------------------------------------------- main

def load_known(pid):
    f = VERIF / 'known_findings.json'
    if not f.exists():
        return {}
    return {e['key']: e for e in json.loads(f.read_text())['findings']
            if e['property'] == pid and e.get('status') == 'known'}


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    modname = f'rv.checks.{pid.lower()}'
    mod = importlib.import_module(modname)
    rng = np.random.default_rng([seed, int(pid[1:]), {'quick': 0, 'thorough': 1}[tier]])
    if len(argv) > 2 and argv[1] == '--replay':
        jobs = [json.loads(pathlib.Path(argv[2]).read_text())['job']]
        jobs = [j for j in jobs if j] or mod.jobs(tier, rng)
    else:
        jobs = mod.jobs(tier, rng)
    for i, j in enumerate(jobs):
        j.setdefault('_i', i)
        j.setdefault('seed', int(rng.integers(2 ** 31)))
    limit = float(os.environ.get('RV_LIMIT', 780 if tier == 'quick' else 3600))
    agg = Recorder()
    agg.tier, agg.seed = tier, seed
    errors, timeouts, njobs = [], 0, 0
    by_kind = collections.Counter()
    for r in worker_map(modname, jobs, t0 + limit):
        if 'timeout' in r:
            timeouts += r['timeout']
            continue
        if r.get('err'):
            errors.append((r.get('job'), r['err']))
        if 'events' in r:
            njobs += 1
            by_kind[str(r['job'].get('kind', 'all'))] += 1
            agg.events.update(r['events'])
            agg.distinct |= r['distinct']
            agg.violations += r['violations']
            if os.environ.get('RV_VERBOSE'):
                print(r['job'].get('kind'), dict(r['events']), flush=True)
            if len(agg.samples) < 12:
                agg.samples += r['samples'][:2]
            for k, v in r['data'].items():
                agg.data[k] += v
    if hasattr(mod, 'final') and not errors:
        try:
            mod.final(agg)
        except Exception:
            errors.append((None, traceback.format_exc()))
    known = load_known(pid)
    new, seen = [], {}
    for v in agg.violations:
        if v['key'] in known:
            seen.setdefault(v['key'], v)
        else:
            new.append(v)
    short = {k: (agg.events[k], m) for k, m in getattr(mod, 'MIN', {}).items()
             if agg.events[k] < m} if not (len(argv) > 2) else {}
    if 'oracle_evaluations' not in agg.events:
        short['oracle_evaluations'] = (0, 1)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=int(agg.events.get('oracle_evaluations', 0)),
                            distinct_nontrivial=len(agg.distinct),
                            rule=mod.RULE,
                            samples=agg.samples[:12] or [dict(note='no sample')],
                            workloads=njobs, workloads_by_kind=dict(by_kind),
                            observed={k: int(v) for k, v in sorted(agg.events.items()) if k not in ('job_ms', 'oracle_evaluations')},
                            statistics=tojson(getattr(agg, 'stats', {})),
                            workload_errors=len(errors), workloads_not_finished=timeouts,
                            worker_seconds=round(agg.events['job_ms'] / 1000, 1)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2),
              violations=len(new))
    out = VERIF / 'evidence'
    out.mkdir(exist_ok=True)
    (out / f'{pid}.json').write_text(json.dumps(ev, indent=1) + '\n')
    for k, v in seen.items():
        print(f'KNOWN-FINDING: property={pid} {known[k]["what"]}')
    code = 0
    if new:
        rep = out / 'replay'
        rep.mkdir(exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = rep / f'{pid}-{i}.json'
            path.write_text(json.dumps(v, indent=1) + '\n')
            print(f'VIOLATION property={pid} replay={path}')
            print(f'   [{v["key"]}] {v["msg"][:500]}')
        code = 1
    elif errors:
        print(f'ERROR {pid}: {len(errors)} workloads failed in the harness; first: {tojson(errors[0][0])}\n{errors[0][1]}')
        code = 2
    elif short:
        print(f'INCONCLUSIVE {pid}: too little observed: {short}')
        code = 3
    print(f'{pid} {tier} seed={seed}: {njobs} workloads, {ev["coverage"]["evaluations"]} oracle evaluations, '
          f'{len(agg.distinct)} distinct cases, {len(new)} violations, {timeouts} unfinished, {ev["wall_s"]}s -> exit {code}')
    sys.stdout.flush()
    return code
