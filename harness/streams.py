"""Replays histories of the Streams machine with the catalogue of sampling calls."""
import hashlib
import json
import os
import numpy as np
import vp
import catalogue

R01 = ['AcceptedBadSeed', 'DisturbsAnotherStream', 'DoesNotReadTheStreamItIsGiven', 'NotReproducible',
       'StreamStateNotReproducible']
R02 = ['ArgumentsChanged', 'NumpyErrorHandlingChanged']
PLAIN = ['NotReproducible', 'DisturbsAnotherStream']
BAD = ['seed', 1.5, [1, 2], (3,), {}, np.array([1, 2])]


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]


def canon(x):
    if isinstance(x, catalogue.Memo):
        return 'memo:%s' % x.clean()
    if isinstance(x, np.ndarray):
        return '[%s]' % ','.join(canon(v) for v in x.tolist())
    if isinstance(x, (list, tuple)):
        return '[%s]' % ','.join(canon(v) for v in x)
    if isinstance(x, dict):
        return '{%s}' % ','.join('%s:%s' % (k, canon(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return str(int(x))
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    if hasattr(x, 'edges') and hasattr(x, 'nodes'):
        return 'graph %s %s' % (sorted(x.nodes()), sorted(map(sorted, x.edges())))
    if callable(x):
        return 'callable'
    return repr(x)


def state(rs):
    s = rs.get_state(legacy=True)
    return hashlib.sha1(s[1].tobytes() + repr(s[2:]).encode()).hexdigest()[:16]


def seed_of(kind, A, B, j):
    return {'none': None, 'module': np.random, 'int1': 1, 'np1': np.int64(1), 'int2': 2, 'objA': A,
            'objB': B, 'bad': BAD[j % len(BAD)], 'plain': None}[kind]


def trace(names, hist, clauses):
    def f():
        calls = {}
        for a, nm in zip('cd', names):
            calls[a] = catalogue.CALLS[nm]()
        if len(names) > 2:
            f0, args = catalogue.PLAIN[names[2]]()
            calls['p'] = (lambda rs: f0()), args
        np.random.seed(1)
        A, B, G = np.random.RandomState(1), np.random.RandomState(2), np.random.mtrand._rand
        out = dict(outcome='ok', G=state(G), A=state(A), B=state(B), steps=[], clauses=clauses)
        for j, h in enumerate(hist):
            r = dict(h, outcome='ok', result='', args=True, err=True)
            if h['op'] == 'reseed':
                np.random.seed(1)
            else:
                run, args = calls[h['call']]
                err, before = np.geterr(), [canon(x) for x in args]
                try:
                    with vp.quiet():
                        r['result'] = digest(run(seed_of(h['kind'], A, B, j)))
                except Exception as e:
                    r['outcome'] = type(e).__name__
                    r['_m'] = str(e)[:200]
                r['args'] = [canon(x) for x in args] == before
                r['err'] = np.geterr() == err
                np.seterr(**err)
                # names of the two calls, as the specification knows them
                r['call'] = names['cdp'.index(h['call'])]
            r.update(G=state(G), A=state(A), B=state(B))
            out['steps'].append(r)
        return out
    return f


def histories(c, num, depth):
    """Behaviours of Streams, drawn by TLC."""
    path = os.path.join(c.work, 'MC_Streams_sim.cfg')
    with open(path, 'w') as f:
        f.write('SPECIFICATION SSpec\nCONSTANT Depth = %d\nINVARIANTS TypeOK OnlyOwnCalls\n'
                'CHECK_DEADLOCK FALSE\n' % depth)
    r = vp.tlc('MC_Streams', path, c.work, workers=1,
               extra=('-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(c.seed)))
    out = []
    for line in r['out'].splitlines():
        if line.startswith('"HIST '):
            out.append(json.loads(json.loads(line)[5:])['hist'])
    if len(out) < num // 2:
        raise RuntimeError('no histories\n' + r['out'][-2000:])
    return out


# every way of naming a stream, twice where it matters, with reseeding
FIXED = [('int1', 'c'), ('objA', 'c'), ('np1', 'c'), ('none', 'c'), ('objA', 'c'), ('none', 'c'), ('bad', 'c'),
         ('int2', 'c'), ('objB', 'd'), ('objB', 'c'), ('reseed', ''), ('module', 'c'), ('int1', 'd'), ('int1', 'c')]


def run(c, clauses, per_call, depth):
    names = sorted(catalogue.CALLS)
    rng = np.random.RandomState(c.seed)
    fixed = [dict(op='reseed', call='', kind='') if k == 'reseed' else dict(op='call', call=a, kind=k)
             for k, a in FIXED]
    cases = []
    H = histories(c, per_call * len(names), depth)
    for j, nm in enumerate(names):
        other = names[(j + 17) % len(names)]
        slow = nm.startswith('ope') or 'alpha' in nm or 'vfx' in nm or 'polypot' in nm
        cases.append(('%s/fixed' % nm, trace((nm, other), fixed, clauses), {}, 60))
        for t in range(per_call if not slow else max(1, per_call // 3)):
            k = j * per_call + t
            o2 = names[int(rng.randint(len(names)))]
            cases.append(('%s/%s/%d' % (nm, o2, t), trace((nm, o2), H[k % len(H)], clauses), {}, 60))
    c.conform_traces(cases, 'MC_StreamTrace', 'MC_StreamTrace.cfg')


# a call that draws nothing, among calls that do
QUIET = [('plain', 'p'), ('int1', 'c'), ('plain', 'p'), ('objA', 'c'), ('none', 'd'), ('plain', 'p'), ('plain', 'p')]


def run_plain(c, clauses, per_call):
    names = sorted(catalogue.CALLS)
    quick = [n for n in names if not (n.startswith('ope') or 'alpha' in n or 'vfx' in n or 'polypot' in n)]
    rng = np.random.RandomState(c.seed)
    fixed = [dict(op='call', call=a, kind=k) for k, a in QUIET]
    cases = []
    for nm in sorted(catalogue.PLAIN):
        for t in range(per_call):
            a, b = (quick[int(rng.randint(len(quick)))] for _ in range(2))
            cases.append(('%s/%s/%s/%d' % (nm, a, b, t), trace((a, b, nm), fixed, clauses), {}, 60))
    c.conform_traces(cases, 'MC_StreamTrace', 'MC_StreamTrace.cfg')
