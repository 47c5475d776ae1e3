"""Check driver: run the real code, let TLC judge the observations, report."""
import contextlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SCALE = 10**8

sys.path.insert(0, REPO)
import numpy as np  # noqa: E402
import enumrng as E  # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def outcome_of(e):
    """Name of the outcome for an exception raised by the code under test."""
    return type(e).__name__


def plain(x):
    """Numpy scalars and arrays to plain JSON values."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    return x


# ------------------------------------------------------------------ laws of set-valued calls
def as_items(sample):
    """A returned sample as a sorted tuple of ints; -1 stands for something that is no item."""
    out = []
    for x in list(sample):
        try:
            i = int(x)
            if i != x or abs(i) > 10**8:
                i = -1
        except Exception:
            i = -1
        out.append(i)
    return tuple(sorted(out))


MC_SECONDS = 60.0


def observe_law(fn, canon=as_items, max_paths=60000, mc=20000, seed=1, tol=50, accept=None,
                normalise=False, pmax=0.5, enum=True, **kw):
    """Outcome and law of `fn(rng)`.  Exact by enumeration, else sampled with a wide tolerance.
    accept: exception classes that only cut a path (e.g. a rejection budget).
    normalise: condition on the enumerated mass.
    pmax <= 1/2: no outcome is expected to be more likely (tightens the sampled tolerance)."""
    def run(rng):
        with quiet():
            return canon(fn(rng))

    if accept:
        def call(rng):
            try:
                return run(rng)
            except accept:
                raise E.PathCut()
    else:
        call = run
    np_err = np.geterr()
    try:
        try:
            if not enum:
                raise E.Unsupported('asked')
            d, n, cut = E.law(call, max_paths=max_paths, **kw)
            method = 'enumerated'
        except (E.Unsupported, E.Budget, E.Diverged) as e:
            method = 'sampled (%s: %s)' % (type(e).__name__, str(e)[:60])
            d, n, cut = {}, 0, 0.0
            rng = np.random.RandomState(seed)
            t0 = time.time()
            for i in range(mc):
                if i >= 300 and time.time() - t0 > MC_SECONDS:
                    break           # fewer samples, a wider tolerance
                try:
                    r = run(rng)
                except Exception as ex:
                    if accept and isinstance(ex, accept):
                        continue
                    raise
                d[r] = d.get(r, 0.0) + 1.0
                n += 1
            if n == 0:
                return dict(outcome='NoSample', law=[], tol=tol, paths=0, method=method)
            d = {k: v / n for k, v in d.items()}
            tol = int(SCALE * 7 * np.sqrt(pmax * (1 - pmax) / n)) + 50
    except Hang:
        raise
    except Exception as e:
        return dict(outcome=outcome_of(e), law=[], tol=tol, paths=0, method='raised',
                    message=str(e)[:200])
    finally:
        np.seterr(**np_err)
    mass = sum(d.values())
    if mass > 0:
        tol += int(SCALE * min(1.0, cut / (mass if normalise else 1.0)))
    if normalise and mass > 0:
        d = {k: v / mass for k, v in d.items()}
    law = [dict(s=list(k), p=int(round(v * SCALE))) for k, v in sorted(d.items(), key=str)
           if v * SCALE > 0.5]
    return dict(outcome='law', law=law, tol=tol, paths=n, method=method,
                mass=int(round(mass * SCALE)))


def observe(fn, **base):
    """Fields fn() returns, with outcome 'ok', or the outcome of what it raised."""
    o = dict(base)
    try:
        with quiet():
            o.update(fn() or {})
        o.setdefault('outcome', 'ok')
    except Exception as e:
        o.update(outcome=outcome_of(e), message=str(e)[:200])
    return o


# ------------------------------------------------------------------ worker pool
# attributes a user of an object relies on: an object without them is no answer of the code
PUBLIC = ('list_of_samples', 'flush_samples', 'K', 'L', 'params', 'kernel', 'sampling_mode',
          'eval_points', 'mass_of_mu')


def _work(arg):
    i, cid, fn, limit = arg
    # processor time, so that a busy machine does not look like a call that never returns
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(6 * limit)
    t = time.time()
    try:
        np.random.seed(0)
        with quiet():
            o = fn()
    except Hang:
        o = dict(crashed='Hang', outcome='Hang')
    except BaseException as e:
        missing = isinstance(e, AttributeError) and getattr(e, 'name', None) in PUBLIC and \
            type(getattr(e, 'obj', None)).__module__.startswith('dppy')
        o = dict(_machinery=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if missing or (isinstance(e, Exception) and
                       any(f.startswith(os.path.join(REPO, 'dppy')) for f in frames)):
            o = dict(crashed=outcome_of(e), outcome=outcome_of(e), message=o['_machinery'])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    o['_wall'] = time.time() - t
    return i, o


_CASES = None


def _work_idx(i):
    cid, fn, base, limit = _CASES[i]
    return _work((i, cid, fn, limit))


def run_cases(cases, jobs=8, limit=120, overall=700):
    """cases: list of (id, thunk -> observation fields, base fields). Returns observations."""
    global _CASES
    _CASES = [(c[0], c[1], c[2], c[3] if len(c) > 3 else limit) for c in cases]
    out = [None] * len(cases)
    hung = False
    ctx = mp.get_context('fork')
    t0 = time.time()
    with ctx.Pool(min(jobs, max(1, len(cases)))) as pool:
        it = pool.imap_unordered(_work_idx, range(len(cases)), chunksize=1)
        try:
            for _ in range(len(cases)):
                i, o = it.next(timeout=max(1.0, overall - (time.time() - t0)))
                out[i] = o
                hung = hung or o.get('crashed') == 'Hang'
        except mp.TimeoutError:
            pass
        pool.terminate()
    obs = []
    for c, o in zip(_CASES, out):
        if o is None and not hung:      # out of time on a slow machine: not explored
            continue
        if o is None:
            o = dict(crashed='Hang', outcome='Hang', _wall=0)
        r = dict(id=c[0])
        r.update(c[2])
        r.update(o)
        obs.append(plain(r))
    return obs


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workdir, env=None, workers=4, heap='3g', timeout=600, extra=()):
    meta = os.path.join(workdir, 'meta-%s' % module)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAVA_CP, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
           '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    out = '\n'.join(x for x in p.stdout.splitlines()
                    if not x.startswith(('Parsing file', 'Semantic processing', 'Linting')))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    return dict(rc=p.returncode, out=out, generated=int(m.group(1)) if m else 0,
                distinct=int(m.group(2)) if m else 0)


def strip(o):
    return {k: v for k, v in o.items() if not k.startswith('_')}


def judge(observations, module, cfg, workdir, traces=False):
    """TLC evaluates Fails(o) on every observation. Returns ({id: [clauses]}, stats).
    traces: the module is a trace specification that prints one VERDICT per observation."""
    slim = []
    for o in observations:
        s = strip(o)
        for k in ('method', 'message', 'note', 'mass'):
            s.pop(k, None)
        slim.append(s)
    verdict, total = {}, dict(rc=0, distinct=0, generated=0)
    todo, runs = [slim], 0
    while todo:
        part = todo.pop()
        path = os.path.join(workdir, 'obs-%s.json' % module)
        with open(path, 'w') as f:
            json.dump(part, f)
        r = tlc(module, cfg, workdir, env={'VP_OBS': path})
        runs += 1
        v = {}
        for line in r['out'].splitlines():
            line = line.strip()
            if line.startswith('"VERDICT '):
                x = json.loads(json.loads(line)[len('VERDICT '):])
                v[x['id']] = sorted(x['clauses'])
        done = len(v) == len(part) if traces else r['distinct'] == 2 * len(part)
        if r['rc'] == 0 and done:
            verdict.update(v)
            total['distinct'] += r['distinct']
            total['generated'] += r['generated']
            continue
        # an observation on which the specification is not even defined (a value of another
        # type, an index out of range): find it; the others are judged all the same
        if runs > 60 and any('OutsideTheDomainOfTheSpecification' in x for x in verdict.values()):
            print('many observations are outside the domain of the specification: the rest is not judged')
            break
        if not any(x in r['out'] for x in ('Attempted to', 'TLC threw', 'Overflow when')) or runs > 60:
            raise RuntimeError('TLC failed on %s (rc %d, %d states for %d observations)\n%s' % (
                module, r['rc'], r['distinct'], len(part), r['out'][-3000:]))
        if len(part) == 1:
            print('OUTSIDE the domain of the specification:', part[0]['id'], r['out'][-800:])
            verdict[part[0]['id']] = ['OutsideTheDomainOfTheSpecification']
            continue
        h = len(part) // 2
        todo += [part[:h], part[h:]]
    verdict, r = {k: v for k, v in verdict.items() if v}, total
    return verdict, r


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known':
                    out.append(k)
    return out


# ------------------------------------------------------------------ the check object
class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.work = os.path.join(VERIF, 'build', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.failures = []          # (case id, clauses, observation)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            levels = {x['property']: x['level'] for x in json.load(f)['checks']}
        self.level = levels.get(pid, 'model_checking')
        self.ncases = self.broken = self.not_reached = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def model(self, module, cfg, workers=4, must=None, timeout=600, extra=()):
        """Model-check a design-level module; a failure is a failure of the machinery."""
        r = tlc(module, cfg, self.work, workers=workers, timeout=timeout, extra=extra)
        if r['rc'] != 0 or (must and must not in r['out']):
            raise RuntimeError('model %s/%s did not check\n%s' % (module, cfg, r['out'][-3000:]))
        self.states += r['distinct']
        self.transitions += max(0, r['generated'] - 1)
        self.notes.setdefault('models', []).append(
            dict(module=module, cfg=cfg, states=r['distinct'], generated=r['generated']))
        return r

    def conform_traces(self, cases, module, cfg, **kw):
        return self.conform(cases, module, cfg, traces=True, **kw)

    def conform(self, cases, module, cfg, limit=120, overall=700, jobs=8, sample=3, traces=False):
        obs = run_cases(cases, jobs=jobs, limit=limit, overall=overall)
        broken = [o for o in obs if '_machinery' in o]
        for o in broken[:5]:
            print('MACHINERY', o['id'], o['_machinery'])
        self.broken += len(broken)
        self.not_reached += len(cases) - len(obs)
        obs = [o for o in obs if '_machinery' not in o]
        if not obs:
            raise RuntimeError('no observation could be made')
        slow = max(obs, key=lambda o: o.get('_wall', 0))
        if slow.get('_wall', 0) > self.notes.get('slowest', dict(s=0))['s']:
            self.notes['slowest'] = dict(case=slow['id'], s=round(slow['_wall'], 1), limit=limit)
        ids = [o['id'] for o in obs]
        assert len(set(ids)) == len(ids), 'duplicate case ids'
        dead = [o for o in obs if o.get('crashed')]
        live = [o for o in obs if not o.get('crashed')]
        verdict, r = judge(live, module, cfg, self.work, traces=traces) if live else (
            {}, dict(distinct=0, generated=0))
        if dead:
            v2, r2 = judge([dict(id=o['id'], crashed=o['crashed']) for o in dead],
                           'MC_Crash', 'MC_Crash.cfg', self.work)
            verdict.update(v2)
            r['distinct'] += r2['distinct']
            r['generated'] += r2['generated']
        self.states += r['distinct']
        self.transitions += r['generated'] - len(obs)
        self.traces += len(obs)
        self.ncases += len(obs)
        by = {o['id']: o for o in obs}
        for cid, clauses in verdict.items():
            self.failures.append((cid, clauses, by[cid]))
        m = self.notes.setdefault('methods', {})
        for o in obs:
            k = str(o.get('method', 'direct')).split(' ')[0]
            m[k] = m.get(k, 0) + 1
        self.notes['paths'] = self.notes.get('paths', 0) + sum(
            o.get('paths', 0) for o in obs if isinstance(o.get('paths', 0), int))
        step = max(1, len(obs) // sample)
        for o in obs[::step][:sample]:
            s = strip(o)
            if isinstance(s.get('law'), list):
                s['law'] = s['law'][:6]
            s = json.loads(json.dumps(s)[:1500]) if len(json.dumps(s)) <= 1500 else \
                dict(id=o['id'], note='long observation', head=json.dumps(s)[:600])
            self.samples.append(s)
        return obs

    def finish(self):
        known = known_findings(self.pid)
        new, old = [], []
        for cid, clauses, o in self.failures:
            k = next((k for k in known if re.fullmatch(k['case'], cid)
                      and set(clauses) <= set(k['clauses'])), None)
            (old if k else new).append((cid, clauses, o, k))
        seen = {}
        for cid, clauses, o, k in old:
            seen.setdefault(k['what'], []).append(cid)
        for what, cids in seen.items():
            print('KNOWN-FINDING: property=%s %s [%d case(s), e.g. %s]' % (
                self.pid, what, len(cids), cids[0]))
        replay = None
        if new:
            replay = os.path.join(self.work, 'violation.json')
            with open(replay, 'w') as f:
                json.dump([dict(case=c, clauses=cl, observation=strip(o)) for c, cl, o, _ in new],
                          f, indent=1)
            for c, cl, o, _ in new[:10]:
                print('  case %s contradicts clause(s) %s  %s' % (c, ','.join(cl),
                      ' '.join(str(o.get('message', '')).split())[:160]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                not_reached=self.not_reached,
                                samples=self.samples[:8] or ['none'], **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(plain(ev), f, indent=1)
        print('%s %s: %d observations, %d states, %d new violation(s), %d known, %.1fs' % (
            self.pid, self.tier, self.traces, self.states, len(new), len(old),
            time.time() - self.t0))
        if self.not_reached:
            print('%d case(s) not reached in the time given' % self.not_reached)
        if self.broken:
            print('%d observation(s) could not be made' % self.broken)
        return 1 if new else 2 if self.broken else 0
