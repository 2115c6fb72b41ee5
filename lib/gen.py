"""Workload generators: random and boundary deployments."""
import math, random
from deploy import Spec

BUF = 140000
QCAP, RCAP, SCAP = BUF // 12, BUF // 52, BUF // 76


def ccap(layers):
    return BUF // (124 * layers)


SEGS = ['none', 'max:1', 'max:7', 'max:1000', 'rand:64', 'rand:5000', 'mix', 'tail:1', 'tail:3', 'tail:51',
        'align:12', 'align:52', 'align:76', 'align:124']


def link_counts(sp):
    """messages on the link into (party, server), fixed noise"""
    c = 0 if sp.eps == 0 or sp.delta == 0 else int(math.floor((2.0 / sp.eps) * math.log(1.0 / sp.delta)))
    cnt = [list(sp.N)]
    for p in range(1, sp.P):
        tot = sum(cnt[-1]) + sp.D * c
        row = [tot // sp.S] * sp.S
        row[-1] = tot - (tot // sp.S) * (sp.S - 1)
        cnt.append(row)
    return cnt


def env_noise(R, S, heavy=False, small=True):
    """a random hostile but legal environment"""
    e = {}
    if R.random() < .7:
        e['VSHIM_RSEG'] = R.choice(SEGS if small else ['none', 'rand:5000', 'mix', 'tail:3', 'max:1000'])
    if R.random() < .5:
        e['VSHIM_WSEG'] = R.choice(SEGS if small else ['none', 'rand:5000', 'mix', 'max:1000'])
    if R.random() < .4:
        e['VSHIM_JITTER'] = R.choice(['30', '200', '1000'])
    if small and R.random() < .4:
        e['VSHIM_POLLHIDE'] = R.choice(['200', '600'])
    if R.random() < .3:
        e['VSHIM_BUFCLAMP'] = R.choice(['2000', '20000', '212992'] if S == 1 and small else ['212992'])
    return {k: v for k, v in e.items() if v != 'none'}


def small(seed, variant='san', S=None, P=None, stage=None, c='any', rng=None, env=True, N=None, D=None,
          noise_mode=None):
    """a small random deployment"""
    R = random.Random('small%s' % seed)
    S = S if S is not None else R.choice([1, 1, 1, 2, 2, 3, 4, 5])
    P = P if P is not None else R.choice([2, 2, 2, 3, 3, 4, 5])
    if D is None:
        D = R.choice([S, S + 1, S + R.randrange(1, 9), R.randrange(S, 60), R.randrange(S, 12 + S), 200])
    if c == 'any':
        c = R.choice([None, 0, 1, 1, 2, 3, 5])
    if D * (c or 0) * P > 2500:
        c = 1
    if N is None:
        k = R.random()
        if k < .35:
            N = [R.choice([0, 1, 2, R.randrange(40)]) for _ in range(S)]
        elif k < .55:
            N = [R.randrange(1, 60)] * S
        elif k < .6:
            N = [0] * S
            N[R.randrange(S)] = R.randrange(1, 50)
        else:
            N = [R.randrange(0, 90) for _ in range(S)]
    if stage is None:
        stage = R.choice(['all', 'all', 'all', 'all', 'online', 'offline'])
    if rng is None:
        rng = R.choice(['seeded', 'seeded', 'seeded', 'edge', 'real'])
    if variant == 'sample' and noise_mode is None:
        noise_mode = 'sample'
    seeds = {}
    k = R.random()
    if k < .25:     # as generated by the tool
        seeds = {'local_seeds': [[p * S + s for s in range(S)] for p in range(P)],
                 'shared_seeds': [1000 + p for p in range(P)]}
    elif k < .35:   # everything equal
        v = R.choice([0, 1, 2**31 - 1, -1])
        seeds = {'local_seeds': [[v] * S for _ in range(P)], 'shared_seeds': [v] * P}
    return Spec(P=P, S=S, D=D, c=c, N=N, stage=stage, seed=hash_int(seed), rng=rng, variant=variant,
                env=env_noise(R, S) if env else {}, order=R.choice(['rev', 'fwd', 'rand', 'clientfirst']),
                noise_mode=noise_mode or 'fixed', **seeds)


def hash_int(x):
    h = 1469598103934665603
    for ch in str(x):
        h = ((h ^ ord(ch)) * 1099511628211) & (2**64 - 1)
    return h % 1000000007 + 1


def smalls(tag, seed, n, **k):
    return [small('%s/%d/%d' % (tag, seed, i), **k) for i in range(n)]


def boundary(seed, variant='san', which=None):
    """batches whose size sits at a multiple of the capacity of some buffer"""
    R = random.Random('bound%s' % seed)
    kind = which or R.choice(['cipher0', 'cipherp', 'query', 'resp', 'secret', 'queryS', 'respS', 'offS'])
    d = R.choice([-1, 0, 0, 1])
    mult = R.choice([1, 1, 1, 2])
    s1 = dict(S=1, seed=hash_int(seed), variant=variant, order='rev', tag=kind)
    env = env_noise(R, 1, small=False)
    D = R.randrange(5, 40)
    if kind == 'cipher0':           # client -> first party
        P = R.choice([2, 3, 4])
        return Spec(P=P, D=D, c=R.choice([None, 1]), N=max(1, mult * ccap(P) + d), stage=R.choice(['all', 'offline']), env=env, **s1)
    if kind == 'cipherp':           # party p-1 -> p
        P = R.choice([2, 3, 4])
        p = R.randrange(1, P)
        c = R.choice([0, 1, 2])
        return Spec(P=P, D=D, c=c, N=max(1, mult * ccap(P - p) + d - p * D * c), stage='all', env=env, **s1)
    if kind == 'query':
        P = R.choice([2, 3]); c = R.choice([0, 1]); p = R.randrange(0, P)
        return Spec(P=P, D=D, c=c, N=mult * QCAP + d - p * D * c, stage='online', env=env, **s1)
    if kind == 'resp':
        P = R.choice([2, 3]); c = R.choice([0, 1]); p = R.randrange(0, P)
        return Spec(P=P, D=D, c=c, N=R.choice([1, 2, 3]) * RCAP + d - p * D * c, stage=R.choice(['online', 'online', 'all']), env=env, **s1)
    S = R.choice([2, 2, 3, 4])
    env = env_noise(R, S, small=False)
    sS = dict(S=S, seed=hash_int(seed), variant=variant, order='rev', tag=kind, env=env)
    P = R.choice([2, 3])
    if kind == 'secret':            # broadcast of secrets
        c = R.choice([None, 1])
        return Spec(P=P, D=D + S, c=c, N=[SCAP + d] + [R.choice([0, 1, SCAP])] * (S - 1), stage='all', **sS)
    if kind == 'queryS':
        return Spec(P=P, D=D + S, c=R.choice([0, 1]), N=S * QCAP + R.randrange(-40, 40), stage='online', **sS)
    if kind == 'respS':
        return Spec(P=P, D=D + S, c=R.choice([0, 1]), N=S * RCAP + R.randrange(-20, 20), stage='online', **sS)
    L = P - 1
    return Spec(P=P, D=D + S, c=R.choice([0, 1]), N=S * ccap(L) + R.randrange(-9, 9), stage='offline', **sS)


def boundaries(tag, seed, n, **k):
    kinds = ['cipher0', 'cipherp', 'query', 'resp', 'secret', 'queryS', 'respS', 'offS']
    return [boundary('%s/%d/%d' % (tag, seed, i), which=kinds[i % len(kinds)], **k) for i in range(n)]


def wides(tag, seed, n, variant='san'):
    """many parties / many servers / large tables"""
    out = []
    for i in range(n):
        R = random.Random('wide%s/%d/%d' % (tag, seed, i))
        k = i % 8
        sd = hash_int('%s/%d/w%d' % (tag, seed, i))
        if k == 0:
            P = R.choice([6, 7, 8, 10, 12])
            out.append(Spec(P=P, S=1, D=R.randrange(2, 20), c=R.choice([0, 1, 2]), N=R.randrange(1, 40), seed=sd, variant=variant, tag='manyparties'))
        elif k == 1:
            S = R.choice([6, 7, 8, 9])
            out.append(Spec(P=R.choice([2, 3]), S=S, D=S + R.randrange(0, 25), c=R.choice([0, 1, 2]), N=[R.randrange(0, 30) for _ in range(S)], seed=sd, variant=variant, tag='manyservers'))
        elif k == 2:
            D = R.choice([65535, 65536, 65537, 70001, 100000, 131072, 1 << 20])
            out.append(Spec(P=R.choice([2, 3]), S=R.choice([1, 2]), D=D, c=None, N=R.randrange(100, 400), seed=sd, variant=variant, tag='bigtable'))
        elif k == 3:
            S = R.choice([1, 2, 3])
            out.append(Spec(P=2, S=S, D=R.choice([65537, 66000 + R.randrange(9), 70001]), c=1, N=R.randrange(50, 300), stage='online', seed=sd, variant='opt' if variant == 'san' else variant, tag='bignoise'))
        elif k == 4:
            S = R.choice([1, 2, 3])
            out.append(Spec(P=R.choice([2, 3]), S=S, D=R.randrange(S, 30), c=R.choice([0, 3]), N=[R.randrange(400, 1500) for _ in range(S)], seed=sd, variant=variant, env=env_noise(R, S, small=False), tag='volume'))
        elif k == 6:
            # more than 2^16 messages at every server of a parallel party
            S = R.choice([2, 3])
            out.append(Spec(P=2, S=S, D=R.choice([70001, 66000 + R.randrange(9)]), c=S, N=[R.randrange(0, 100) for _ in range(S)], stage='online', seed=sd, variant='opt' if variant == 'san' else variant, tag='bignoise'))
        elif k == 7:
            if R.random() < .5:
                S = R.randrange(11, 19)
                out.append(Spec(P=2, S=S, D=S + R.randrange(0, 25), c=R.choice([0, 1]), N=[R.randrange(0, 12) for _ in range(S)], seed=sd, variant=variant, tag='manyservers'))
            else:
                out.append(Spec(P=R.randrange(13, 18), S=1, D=R.randrange(2, 12), c=R.choice([0, 1]), N=R.randrange(1, 12), seed=sd, variant=variant, tag='manyparties'))
        else:
            S = R.choice([1, 2, 4])
            D = R.randrange(S, 12)
            out.append(Spec(P=R.choice([2, 3]), S=S, D=D, c=R.choice([30, 60, 127, 128, 200, 254, 255]) if D * S < 40 else 40, N=R.randrange(1, 20), seed=sd, variant=variant, tag='muchnoise'))
    return out


def heavies(tag, seed, kinds=(0,)):
    """both stages with more than 2^16 client queries (0, 1), or more than 2^16 noise queries per server (2) and more (3, 4)"""
    out = []
    for i in kinds:
        R = random.Random('heavy%s/%d/%d' % (tag, seed, i))
        sd = hash_int('%s/%d/h%d' % (tag, seed, i))
        if i == 0:
            sp = Spec(P=2, S=1, D=R.choice([50, 70001]), c=None, N=65536 + R.choice([1, 2, 464, 1000]), stage='all', seed=sd, variant='opt', rng='real', tag='heavy')
        elif i == 1:
            sp = Spec(P=2, S=2, D=66000, c=1, N=[66000, 3], stage='all', seed=sd, variant='opt', rng='real', tag='heavy')
        elif i == 3:    # more than 2^16 noise queries from one server to one server
            S = 2 + R.randrange(2)
            sp = Spec(P=2, S=S, D=R.randrange(70000, 80000), c=S * S, N=[R.randrange(3, 300) for _ in range(S)], stage='online', seed=sd, variant='opt', tag='heavy')
        elif i == 4:    # more than 2^20 noise queries of one server
            sp = Spec(P=2, S=2, D=66000, c=32, N=[3, 5], stage='all', seed=sd, variant='opt', rng='real', tag='heavy')
        else:
            sp = Spec(P=2, S=2, D=65560, c=2, N=[3, 5], stage='all', seed=sd, variant='opt', rng='real', tag='heavy')
        out.append(sp)
    return out


def giants(tag, seed, kinds=(0, 1), variants=('opt', 'san')):
    """deployments near the limits of the number of parties (0) and servers (1, 2), with few queries"""
    out = []
    for j, i in enumerate(kinds):
        R = random.Random('giant%s/%d/%d/%d' % (tag, seed, i, j))
        k = dict(seed=hash_int('%s/%d/g%d/%d' % (tag, seed, i, j)), variant='opt' if i == 2 else R.choice(variants), order='rand', tag='giant')
        if i == 0:
            P = R.choice([33, 65, 127, 128, 129, 130, 200, 254, 255, R.randrange(30, 256)])
            out.append(Spec(P=P, S=1, D=R.randrange(1, 4), c=1 if P < 100 else R.choice([None, 0]), N=R.randrange(1, 6), **k))
        else:
            S = R.choice([33, 34, 40, 64, 65, 66]) if i == 1 else R.randrange(128, 132)
            out.append(Spec(P=2 if S > 40 else R.choice([2, 3]), S=S, D=S + R.randrange(0, 25), c=R.choice([0, 1]), N=[R.randrange(0, 4) for _ in range(S)], **k))
    return out
