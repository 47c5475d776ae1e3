"""Replays call histories of FiniteDPP objects."""
import copy
import json
import os
import re
import numpy as np
import vp
import kernels as kz

B = np.array([[1, 0, 1, 1], [1, 2, 0, 0], [0, 1, 1, -1]])    # rank 3, N = 4
TALL = np.array([[1, 0, 1], [1, 2, 0], [0, 2, -1], [0, 1, 1]])  # rank 3, N = 3
A = np.array([[1, 0, 1, 2], [0, 1, 1, -1]])
A3 = np.array([[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 0]])       # projections of rank 3
STRONG = np.array([[3, 1, 0], [0, 3, 1], [1, 0, 3]])           # for vfx / alpha
BIG = dict(rls_oversample_bless=60., rls_oversample_dppvfx=60., rls_oversample_alphadpp=60.)


def representation(name, strong=False):
    """(rep, model, rank)"""
    if name in ('A_zono', 'Kproj', 'K_eig_proj'):
        return kz.reps_A(A)[name], kz.model('A', A, 4), 2
    if name == 'L_eig_proj':
        M, q = kz.scaled_proj(A3)
        return kz.reps_Lproj(A3)[name], kz.model('L', M, 4, q), 3
    if name == 'Lproj':
        M, q = kz.scaled_proj(A)
        return kz.reps_Lproj(A)[name], kz.model('L', M, 4, q), 2
    F = STRONG if strong else TALL if name == 'L_gram_tall' else B
    return (kz.reps_L(F)['L_gram_factor' if name == 'L_gram_tall' else name],
            kz.model('L', F.T @ F, F.shape[1]), 3)


def histories(c, cfg, consts, simulate=None, depth=None):
    """Histories generated by TLC from ObjectHistories."""
    path = os.path.join(c.work, cfg)
    body = 'SPECIFICATION Spec\nCONSTANTS\n' + ''.join(
        '  %s %s\n' % kv for kv in consts) + 'INVARIANT LogBounded\nCHECK_DEADLOCK FALSE\n'
    with open(path, 'w') as f:
        f.write(body)
    extra = ()
    if simulate:
        extra = ('-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(c.seed))
    r = vp.tlc('MC_Histories', path, c.work, workers=1, extra=extra)
    out = []
    for line in r['out'].splitlines():
        if line.startswith('"HIST '):
            out.append(json.loads(json.loads(line)[5:]))
    if not out:
        raise RuntimeError('no histories\n' + r['out'][-2000:])
    seen = {json.dumps(h, sort_keys=True): h for h in out}
    c.states += r['distinct']
    c.transitions += max(0, r['generated'] - 1)
    c.notes.setdefault('generated_histories', []).append(dict(cfg=cfg, histories=len(seen)))
    return [seen[k] for k in sorted(seen)]


def call(d, a, rng):
    op, mode, k = a['op'], a['mode'], a['k']
    big = dict(BIG, verbose=False) if mode in ('vfx', 'alpha') else {}
    if op == 'exact':
        return d.sample_exact(mode, random_state=rng, **big)
    if op == 'kdpp':
        return d.sample_exact_k_dpp(k, mode, random_state=rng, **big)
    if op == 'mcmc':
        p = dict(nb_iter=2, random_state=rng)
        if mode in ('AD', 'AED'):
            p['s_init'] = [0]
        elif mode == 'E':
            if not k:                   # no size, no initial state
                return d.sample_mcmc(mode, **p)
            p['s_init'] = [0, 1, 2][:k]
            if k % 2:
                return d.sample_mcmc_k_dpp(k, **p)
            p['size'] = k
        return d.sample_mcmc(mode, **p)
    if op == 'flush':
        return d.flush_samples()
    if op == 'info':
        return d.info()
    return getattr(d, op)()


def tag(a):
    return ''.join(str(a[x]) for x in ('op', 'mode') if a[x]) + (str(a['k']) if a['k'] else '')


def record(d, a, rng):
    """Make the call and record what the user can see after it."""
    before = list(d.list_of_samples)
    frozen = copy.deepcopy(before)
    c = dict(op=a['op'], mode=a['mode'], k=a['k'], outcome='ok', items=[], last=True,
             checkable=False)
    ret = None
    try:
        with vp.quiet():
            ret = call(d, a, rng)
    except Exception as e:
        c['outcome'] = type(e).__name__
        c['message'] = str(e)[:100]
        if a['mode'] in ('vfx', 'alpha') and type(e) is ValueError and re.search(
                'reject|iter|attempt|oversample|maximum', str(e), re.I):
            c['outcome'] = 'gave_up'
    log = d.list_of_samples
    c['log'] = len(log)
    m = re.search(r'number of samples = (\d+)', str(d))
    c['shown'] = int(m.group(1)) if m else -1
    keep = 0 if a['op'] == 'flush' else min(len(before), len(log))
    c['keeps'] = bool(repr(log[:keep]) == repr(frozen[:keep]))
    if c['outcome'] == 'ok' and a['op'] in ('exact', 'kdpp', 'mcmc'):
        if a['op'] == 'mcmc':
            c['last'] = bool(len(log) and len(log[-1]) == 2 and
                             repr(list(log[-1][-1])) == repr(list(ret)))
        else:
            c['last'] = bool(len(log) and isinstance(ret, list) and log[-1] == ret)
        c['items'] = list(vp.as_items(ret))
        c['checkable'] = True
    return c


def clean(c):
    return {k: v for k, v in c.items() if k != 'message'}


_fresh = {}


def last_law(d, a, **kw):
    return vp.observe_law(lambda rng: call(copy.deepcopy(d), a, rng), **kw)


def history_case(h, seed, strong=False, **kw):
    rep, m, rank = representation(h['rep'], strong)

    def f():
        d = kz.build(rep)
        calls = []
        for j, a in enumerate(h['hist'][:-1]):
            calls.append(clean(record(d, a, np.random.RandomState(seed + j))))
        a = h['hist'][-1]
        o = dict(law=[], ref=[], tol=0, kernel=[], final=True, method='direct', paths=0)
        if a['op'] in ('exact', 'kdpp', 'mcmc'):
            obs = last_law(d, a, **kw)
            o.update(law=obs['law'], tol=obs['tol'], method=obs['method'], paths=obs['paths'])
            if a['op'] == 'mcmc' and obs['outcome'] == 'law':
                key = (h['rep'], strong, json.dumps(a))
                if key not in _fresh:
                    _fresh[key] = last_law(kz.build(rep), a, **kw)['law']
                o['ref'] = _fresh[key]
        c = clean(record(d, a, np.random.RandomState(seed + 77)))
        if o['method'] == 'raised':
            # the enumeration found a path that raises: that is the outcome of the call
            c['outcome'] = obs['outcome']
            c['log'] = c['shown'] = calls[-1]['log'] if calls else 0
            c['items'], c['last'], c['keeps'] = [], True, True
            if 'message' in obs:
                o['message'] = obs['message']
        elif c['outcome'] == 'ok' and a['op'] in ('compute_K', 'compute_L'):
            W = getattr(d, a['op'][-1])
            o['kernel'] = np.rint(np.asarray(W, dtype=float) * 1e4).astype(int).tolist()
        o['calls'] = calls + [c]
        return o
    cid = h['rep'] + ('!' if strong else '') + ':' + '>'.join(tag(a) for a in h['hist'])
    return cid, f, dict(rep=h['rep'], rank=rank, model=m)


def walk_case(h, seed, j):
    strong = h['rep'] == 'L_eval_X_data'
    rep, m, rank = representation(h['rep'], strong)

    def f():
        d = kz.build(rep)
        rng = np.random.RandomState(seed)
        return dict(calls=[clean(record(d, a, rng)) for a in h['hist']], final=False, law=[],
                    ref=[], tol=0, kernel=[], method='walk')
    return 'walk%d/%s:%s' % (j, h['rep'], '>'.join(tag(a) for a in h['hist'])), f, dict(
        rep=h['rep'], rank=rank, model=m)


def rejection_case(name, F, before, last, seed, min_prob):
    """Law of a vfx / alpha call, given that its first proposal is accepted, after others."""
    F = np.asarray(F)
    rep = kz.reps_L(F)['L_eval_X_data']
    m = kz.model('L', F.T @ F, F.shape[1])
    one = dict(max_iter=1, max_iter_size_rejection=1, early_stop=True)

    def f():
        for attempt in range(30):       # a dictionary may legitimately not be found
            base = kz.build(rep)
            calls = [clean(record(base, a, np.random.RandomState(seed + 10 * attempt + j)))
                     for j, a in enumerate(before)]
            if all(c['outcome'] == 'ok' for c in calls):
                break
        big = dict(BIG, verbose=False, **one)

        def run(rng):
            d = copy.deepcopy(base)
            if last['op'] == 'exact':
                return d.sample_exact(last['mode'], random_state=rng, **big)
            return d.sample_exact_k_dpp(last['k'], last['mode'], random_state=rng, **big)

        obs = vp.observe_law(run, accept=(ValueError,), normalise=True, multiset=True,
                             min_prob=min_prob, pois_tail=1e-6, max_paths=20000, mc=4000,
                             seed=seed, tol=200)
        c = clean(record(base, last, np.random.RandomState(seed)))
        if obs['outcome'] != 'law':
            c['outcome'] = obs['outcome']
        return dict(calls=calls + [c], law=obs['law'], tol=obs['tol'], ref=[], kernel=[],
                    final=True, method=obs['method'], paths=obs['paths'])
    return 'rej/%s:%s' % (name, '>'.join(tag(a) for a in before + [last])), f, dict(
        rep='L_eval_X_data', rank=F.shape[1], model=m)
