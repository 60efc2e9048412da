"""Runtime-monitoring harness: runs the real hwtypes under generated workloads
while oracles watch every result.

A *group* is a function case(ctx, rng) that drives one case of a property and
reports to ctx.  Every case has its own PRNG seeded from
(property, VERIF_SEED, group, index), so that any violation replays from these
four values alone.  Verdicts are three-valued:

    violated      exit 1, "VIOLATION property=<id> replay=<path>"
    held          exit 0
    inconclusive  exit 2  (watchdog, worker lost, a monitor that saw no event)
"""
import collections
import contextlib
import gc
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
NWORKERS = int(os.environ.get('VMON_WORKERS', '6'))
MAX_REPORTED = 12

# how many times the groups' quick counts the quick tier runs (up to the thorough
# count), so that most properties take half a minute on six cores
QUICK = dict(C01=10, C02=10, C03=10, C04=8, C05=10, C06=8, C07=10, C08=10, C09=5, T01=5,
             S01=4, S02=5, S03=8, S04=3, S05=5, S06=8, S07=8, S08=8, S09=4,
             F01=3, F02=3, F03=4, F04=3, F05=2, F06=2, F07=6,
             A01=10, A02=8, A03=8, A04=10, A05=4, A06=3, A07=4, A08=8, A09=8, A10=6, U01=8)

GROUPS = []          # of the property module loaded in this process


class Violation(Exception):
    """Raised by a monitor; kind identifies the mechanism, detail the witness."""
    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, detail


def group(quick, thorough, name=None, directed=False):
    """Register a case function.  quick/thorough: number of cases."""
    def deco(fn):
        GROUPS.append((name or fn.__name__, fn, quick, thorough))
        return fn
    return deco


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:                          # repr of the code under test
        s = f'<unprintable {type(x).__name__}: {e}>'
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """What the monitors observed."""
    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = {}
        self.violations = []
        self.kinds = collections.Counter()
        self.known = {}
        self.group = None
        self.case = None
        self.cases = collections.Counter()
        self.slowest = 0.

    # one observed event; key describes it (distinct keys are counted)
    def ev(self, key=None, kind=None):
        name = self.group if kind is None else f'{self.group}/{kind}'
        self.events[name] += 1
        if key is not None:
            self.distinct.add(hash((name, key)) & 0xffffffffffff)

    def sample(self, text):
        g = self.group
        if len(self.samples.setdefault(g, [])) < 2:
            self.samples[g].append(short(text, 300))

    def report(self, kind, detail):
        self.kinds[kind] += 1
        if self.kinds[kind] <= 3 and len(self.violations) < 60:
            self.violations.append(dict(kind=kind, detail=short(detail, 2000),
                                        group=self.group, case=self.case))

    def check(self, ok, kind, detail=None):
        if not ok:
            raise Violation(kind, detail() if callable(detail) else detail)

    def eq(self, got, want, kind, detail=None):
        if got != want:
            d = detail() if callable(detail) else detail
            raise Violation(kind, f'{short(d)}: got {short(got)}, expected {short(want)}')

    def known_finding(self, kid, detail):
        self.known.setdefault(kid, short(detail, 300))

    def raises(self, exc, fn, kind, detail=None):
        """fn must raise exc"""
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(kind, f'{short(detail)}: raised {type(e).__name__}({short(e)}) '
                                  f'instead of {exc}') from None
        raise Violation(kind, f'{short(detail)}: returned {short(r)} instead of raising {exc}')


def case_rng(prop, seed, gname, i):
    h = hashlib.sha256(f'{prop}:{seed}:{gname}:{i}'.encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


CASE_CPU = 150         # seconds of processor time; the slowest case takes a few


class NoResult(BaseException):
    """The case used up CASE_CPU."""


def out_of_time(*_):
    raise NoResult


def run_case(ctx, prop, seed, gname, fn, i):
    ctx.group, ctx.case = gname, i
    ctx.cases[gname] += 1
    rng = case_rng(prop, seed, gname, i)
    random.seed(rng.getrandbits(64))          # the library's own generators
    t0 = time.process_time()
    signal.signal(signal.SIGPROF, out_of_time)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        fn(ctx, rng)
        return None
    except NoResult as e:
        ctx.report(f'no result after {CASE_CPU} s of processor time', traceback.format_exc(limit=-6))
        return e
    except Violation as v:
        ctx.report(v.kind, v.detail)
        return v
    except RecursionError as e:
        ctx.report('unexpected RecursionError', traceback.format_exc(limit=-4))
        return e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].name if tb else '?'
        ctx.report(f'unexpected {type(e).__name__} in {where}',
                   traceback.format_exc(limit=-6))
        return e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.slowest = max(ctx.slowest, time.process_time() - t0)


# ---------------------------------------------------------------- worker ----
def worker(prop, tier, seed, shard, nshards, out):
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    sys.setrecursionlimit(5000)
    import warnings
    warnings.simplefilter('ignore')
    load(prop)
    ctx = Ctx()
    k = 0
    for gname, fn, q, t in GROUPS:
        n = min(t, q * QUICK.get(prop, 1)) if tier == 'quick' else t
        for i in range(n):
            if k % nshards == shard:
                run_case(ctx, prop, seed, gname, fn, i)
            k += 1
        if len(ctx.violations) >= 60:
            break
    with open(out, 'w') as f:
        json.dump(dict(events=ctx.events, distinct=sorted(ctx.distinct),
                       samples=ctx.samples, violations=ctx.violations,
                       kinds=ctx.kinds, known=ctx.known, cases=ctx.cases,
                       groups=[g[0] for g in GROUPS], slowest=ctx.slowest, done=True), f)


def load(prop):
    """Import the code under test from REPO, then the property module."""
    sys.set_int_max_str_digits(0)               # for the harness's own messages
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import hwtypes
    where = os.path.realpath(hwtypes.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'hwtypes imported from {where}, not {REPO}')
    import importlib
    GROUPS.clear()
    m = importlib.import_module(f'vmon.p_{prop.lower()}')
    importlib.reload(m) if not GROUPS else None
    return m


def child_env(tmp):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
               PYTHONPATH=VERIF + os.pathsep + REPO,
               PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1')
    return env


# ---------------------------------------------------------------- parent ----
def known_file():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def main(prop, meta):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = 700 if tier == 'quick' else 6 * 3600
    n = NWORKERS if tier == 'quick' else 8
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
    problems, merged = [], []
    with tempfile.TemporaryDirectory(prefix=f'vmon_{prop}_') as tmp:
        procs = []
        for s in range(n):
            out = os.path.join(tmp, f'{s}.json')
            err = open(os.path.join(tmp, f'{s}.err'), 'w+')
            procs.append((s, out, err, subprocess.Popen(
                [sys.executable, '-m', 'vmon.run', '--worker', prop, tier, str(seed),
                 str(s), str(n), out], env=child_env(tmp), cwd=tmp, stdout=err, stderr=err)))
        for s, out, err, pr in procs:
            try:
                pr.wait(timeout=max(1, budget - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                problems.append(f'worker {s}: watchdog after {budget} s')
            err.seek(0)
            text = err.read()[-3000:]
            err.close()
            if os.path.exists(out):
                try:
                    with open(out) as f:
                        merged.append(json.load(f))
                    continue
                except ValueError:
                    pass
            problems.append(f'worker {s}: no result (exit {pr.returncode}): {text}')
    return finish(prop, meta, tier, seed, t0, merged, problems)


def finish(prop, meta, tier, seed, t0, merged, problems):
    evid = os.path.join(VERIF, 'evidence')
    events, cases, kinds = collections.Counter(), collections.Counter(), collections.Counter()
    distinct, samples, violations, known = set(), [], [], {}
    groups = merged[0]['groups'] if merged else []
    per_group = collections.defaultdict(list)
    for m in merged:
        events.update(m['events'])
        cases.update(m['cases'])
        kinds.update(m['kinds'])
        distinct.update(m['distinct'])
        violations += m['violations']
        for k, v in m['known'].items():
            known.setdefault(k, v)
        for g, ss in m['samples'].items():
            per_group[g] += ss
    for g in groups:
        samples += [f'{g}: {s}' for s in per_group.get(g, [])[:2]]
        if not violations and not any(e.split('/')[0] == g for e in events):
            problems.append(f'group {g}: its monitor observed nothing')
    listed = {k['id']: k for k in known_file()['findings'] if k['property'] == prop}
    for k, v in list(known.items()):
        if k not in listed:
            violations.append(dict(kind=f'unlisted finding {k}', detail=v, group=None, case=None))
            kinds[f'unlisted finding {k}'] += 1
    coverage = dict(
        evaluations=sum(events.values()), distinct_nontrivial=len(distinct),
        rule=meta['rule'], samples=samples or ['none'],
        slowest_case_cpu_s=round(max([m['slowest'] for m in merged], default=0), 2),
        cases={g: cases[g] for g in groups}, events=dict(sorted(events.items())))
    if known:
        coverage['known_findings_observed'] = {k: known[k] for k in sorted(known)}
    if problems:
        coverage['inconclusive'] = problems
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=sum(kinds.values()))
    tmpf = os.path.join(evid, f'.{prop}.json.tmp')
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(evid, f'{prop}.json'))
    print(f'{prop} {tier} seed={seed}: {sum(cases.values())} cases, {ev["coverage"]["evaluations"]} '
          f'events, {len(distinct)} distinct, {ev["wall_s"]} s')
    for k in sorted(known):
        if k in listed:
            print(f'KNOWN-FINDING: property={prop} {k}: {listed[k]["what"]}')
    if violations:
        seen = set()
        for v in violations:
            if v['kind'] in seen or len(seen) >= MAX_REPORTED:
                continue
            seen.add(v['kind'])
            h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(evid, 'replay', f'{prop}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v,
                               replay=f'python3 -m vmon.run --replay {path}'), f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {v["kind"]}: {v["detail"].strip()[-600:]}')
        return 1
    for q in problems:
        print('INCONCLUSIVE:', q)
    return 2 if problems else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d['property']
    import warnings
    warnings.simplefilter('ignore')
    load(prop)
    ctx = Ctx()
    for gname, fn, q, t in GROUPS:
        if gname == d['group']:
            r = run_case(ctx, prop, d['seed'], gname, fn, d['case'])
            print('violations:', json.dumps(ctx.violations, indent=1))
            return 1 if ctx.violations else 0
    print('no such group')
    return 2
