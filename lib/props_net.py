"""Deployment-level checks (C01-C11, C16-C18)."""
import json, math, os, random, re, subprocess
import gen
from deploy import Spec, cutoff
from gen import smalls, boundaries, wides, heavies, giants, hash_int, link_counts

ASSUME = ['all processes run on one host over loopback TCP; the shim forwards every socket call unchanged apart from the stated perturbation',
          'configurations have 2 or more parties and at least as many rows as servers per party']


def common(ctx, rule):
    ctx.rule = rule
    ctx.assume = list(ASSUME)


def moved(r):
    """a run is non-trivial when messages actually travelled"""
    return r.stats.get('link_msgs', 0) > 0


# --------------------------------------------------------------------------
def c01(ctx):
    common(ctx, 'random, boundary-sized, many-party, many-server, large-table deployments of the real binaries under '
                'random segmentation, delays, start orders and RNG modes; the client conversation is decoded with all '
                'party keys and each answer compared with the row the query asks for; non-trivial: at least one message travelled; '
                'distinct: by the global order of socket events')
    cats = {'RET'}
    k = ctx.seed
    specs = giants('c01', k, ctx.n((0, 1), (0, 1) * 8 + (2,))) + heavies('c01', k, ctx.n((0, 3), (0, 1, 2, 3, 3))) + smalls('c01', k, ctx.n(90, 700)) + boundaries('c01', k, ctx.n(16, 120)) + wides('c01', k, ctx.n(16, 80))
    # the as-shipped build
    specs += smalls('c01o', k, ctx.n(20, 200), variant='opt')
    specs += smalls('c01s', k, ctx.n(12, 80), variant='sample', stage='all')
    ctx.deploys(specs, cats, nontrivial=moved)
    # every row is reachable: a client drawing rows at random gets to all of them
    rows = []
    for i, (D, S) in enumerate([(8, 1), (5, 2), (2, 1), (16, 2), (1, 1), (3, 3)]):
        rows.append(Spec(P=2 + i % 2, S=S, D=D, c=[None, 1][i % 2], N=600, stage=['all', 'online'][i % 2], seed=hash_int('rows%d/%d' % (k, i)), rng='real', tag='rows'))

    for i, D in enumerate([999, 40000, 70001, (1 << 20) + 7, (1 << 24) + 12345]):
        rows.append(Spec(P=2, S=1 + i % 2, D=D, c=None, N=4000, stage='online', seed=hash_int('rowsb%d/%d' % (k, i)), rng='real', variant='opt', tag='rows'))

    def judge(r):
        m = ctx.judge_benign(r, cats)
        if r.spec.D > 600:      # large tables: 4000 or more random queries reach every 64th of the table and every residue
            if not m and (r.stats.get('rows_hit_bins') != 64 or r.stats.get('rows_hit_residues') != 64):
                m = ['%d random queries reach only %d of 64 parts and %d of 64 residues of a table of %d rows' % (sum(r.spec.N), r.stats.get('rows_hit_bins', 0), r.stats.get('rows_hit_residues', 0), r.spec.D)]
        elif not m and r.stats.get('rows_hit') != r.spec.D:
            m = ['only %d of %d rows are ever retrieved in %d random queries' % (r.stats.get('rows_hit', 0), r.spec.D, sum(r.spec.N))]
        return m
    ctx.deploys(rows, cats, judge=judge, nontrivial=moved)


def batches(ctx, what):
    for variant, mode, scale in what:
        st = ctx.unit('u_batch', variant, [mode, ctx.seed, scale])
        if st:
            ctx.evaluations += int(st['batch_cases'])


def c02(ctx):
    common(ctx, 'random deployments with unequal, empty and boundary-sized client batches; every message on every link is matched '
                'by tag and content to exactly one predecessor and successor, and every reply to its query slot; '
                'in-process batches of more than 4 GB; '
                'non-trivial: at least one message travelled')
    k = ctx.seed
    cats = {'CONS', 'RESP', 'FRAME', 'RET'}
    batches(ctx, (('san', 'batch', ctx.n(1, 10)), ('opt', 'huge', 1)))
    specs = giants('c02', k, ctx.n((0, 1), (0, 1) * 8 + (2,))) + heavies('c02', k, ctx.n((0, 3), (0, 1, 2, 3, 3))) + smalls('c02', k, ctx.n(110, 900), rng=None) + boundaries('c02', k, ctx.n(16, 120)) + wides('c02', k, ctx.n(16, 80))
    specs += smalls('c02p', k, ctx.n(40, 300), S=2 + k % 3) + smalls('c02s', k, ctx.n(20, 150), variant='sample')
    ctx.deploys(specs, cats, nontrivial=moved)


def c03(ctx):
    common(ctx, 'in-process sweep of row ranges for server counts and table sizes (every row covered exactly once), fixed noise '
                'amounts over privacy parameters; deployments with tables not divisible by the number of servers where the noise '
                'added per row by every party is counted on the wire; non-trivial: some party had noise to add')
    k = ctx.seed
    for m in ('range', 'fixed', 'domain'):
        st = ctx.unit('u_noise', 'san', [m, k, ctx.n(1, 8)])
        if st:
            ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    specs = []
    R = random.Random('c03/%d' % k)
    grid = [(S, D) for S in range(1, 8) for D in range(S, S * 3 + 3)]
    R.shuffle(grid)
    for i, (S, D) in enumerate(grid[:ctx.n(50, 10**6)]):
        c = R.choice([0, 1, 1, 2, 3])
        specs.append(Spec(P=R.choice([2, 2, 3]), S=S, D=D, c=c, N=[R.randrange(0, 6) for _ in range(S)],
                          stage=R.choice(['all', 'all', 'online', 'offline']), seed=hash_int('c03/%d/%d' % (k, i)),
                          env=gen.env_noise(R, S)))
    # exact parameters a user writes
    for i, (e, d) in enumerate([(0.1, 1e-6), (1.0, 0.1), (0.5, 1e-4), (2.0, 0.5), (0.05, 1e-3), (10.0, 0.9), (0.0, 0.1), (0.1, 0.0), (1.0, 0.999)]):
        S = [1, 2, 3][i % 3]
        specs.append(Spec(P=2 + i % 2, S=S, D=S + i % 3 + (0 if cutoff(e, d) > 50 else 5), eps=e, delta=d, c='x', N=3, stage=['all', 'online'][i % 2], seed=hash_int('c03e/%d/%d' % (k, i)), tag='params'))
    specs += giants('c03', k, ctx.n((1,), (1,) * 8)) + wides('c03', k, ctx.n(16, 80)) + smalls('c03', k, ctx.n(40, 400))
    ctx.deploys(specs, {'NOISE'}, nontrivial=lambda r: r.stats.get('noise_rows_checked', 0) > 0 or r.stats.get('noise_secrets', 0) > 0)


    # noise that fits per row but not in total
    big = []
    for i, (D, S, c) in enumerate([(5, 1, 10**9), (3, 1, 2 * 10**9), (6, 2, 10**9), (2, 1, 2**31 + 9), (4, 2, 2**31 - 5), (9, 3, 2 * 10**9), (100, 1, 43 * 10**6), (50, 4, 10**8)]):
        for st in ('online', 'all')[:1 + (i % 2)]:
            big.append(Spec(P=2 + i % 2, S=S, D=D, eps=2.0 * math.log(10) / (c + .5), delta=0.1, c='x', N=i % 3, stage=st, seed=hash_int('c03b/%d/%d' % (k, i)), expect='faulty', tag='toomuch'))

    # amounts that are negative or undefined
    for i, (e, d, D) in enumerate([(-1.0, 0.1, 1), (1.0, 1.5, 1), (-2.0, 1e-6, 3), (1.0, 3.0, 4), (float('nan'), 0.1, 3), (0.5, float('nan'), 2)]):
        S = 1 + i % 2 if D > 1 else 1
        big.append(Spec(P=2 + i % 2, S=S, D=D, eps=e, delta=d, c='x', N=2, stage=['online', 'all'][i % 2], seed=hash_int('c03n/%d/%d' % (k, i)), expect='faulty', tag='undefined'))

    def amount(sp):
        return 'undefined or negative' if sp.tag == 'undefined' else '%.0f' % (sp.D * cutoff(sp.eps, sp.delta))

    def refused(r):
        out = []
        for n, v in r.announced.items():
            if n[0] == 'p' and v is not None:
                out.append('%s announces %d messages although its noise alone is %s' % (n, v, amount(r.spec)))
        if not out and any(c == 0 for n, c in r.rc.items() if n[0] == 'p'):
            out.append('noise of %s messages is not refused (epsilon=%g, delta=%g)' % (amount(r.spec), r.spec.eps, r.spec.delta))
        return out
    ctx.deploys(big, None, judge=refused, key=lambda r: json.dumps(r.spec.brief(), sort_keys=True))


def noise_pmf(eps, delta):
    """distribution of floor(max(0, T + min(T, Lap(0, 2/eps))))"""
    b = 2.0 / eps
    T = cutoff(eps, delta)
    cdf = lambda x: 0.5 * math.exp(x / b) if x < 0 else 1 - 0.5 * math.exp(-x / b)
    top = int(math.floor(2 * T))
    p = {}
    for n in range(0, top + 1):
        lo, hi = n - T, n + 1 - T
        a = 0.0 if n == 0 else cdf(lo)
        z = 1.0 if n == top else cdf(hi)
        p[n] = max(0.0, z - a)
    return p


def chi_z(obs, pmf, n):
    """z score of Pearson's statistic with bins merged to expectation >= 8"""
    bins, o, e = [], 0.0, 0.0
    for v in sorted(set(pmf) | set(obs)):
        o += obs.get(v, 0)
        e += n * pmf.get(v, 0.0)
        if e >= 8:
            bins.append((o, e))
            o = e = 0.0
    if bins:
        bins[-1] = (bins[-1][0] + o, bins[-1][1] + e)
    if len(bins) < 2:
        return 0.0, len(bins)
    chi = sum((a - b) ** 2 / b for a, b in bins)
    df = len(bins) - 1
    # Wilson-Hilferty
    return ((chi / df) ** (1 / 3.) - (1 - 2 / (9. * df))) / math.sqrt(2 / (9. * df)), len(bins)


def c04(ctx):
    common(ctx, 'in-process draws of the sampling build compared with the truncated Laplace distribution, and sampled-noise '
                'deployments whose per-row noise of every party is counted on the wire: range, goodness of fit of the pooled rows, '
                'no equal vectors between parties, servers or runs; non-trivial: noise vectors were recovered')
    k = ctx.seed
    for m in ('sampled', 'draw'):
        st = ctx.unit('u_noise', 'sample', [m, k, ctx.n(1, 8)])
        if st:
            ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    params = [(1.0, 1e-4), (0.5, 1e-3), (2.0, 1e-6), (1.0, 0.3)]
    specs = []
    for i in range(ctx.n(36, 300)):
        R = random.Random('c04/%d/%d' % (k, i))
        e, d = params[i % 4]
        S = [1, 1, 2, 3][(i // 4) % 4]
        D = R.randrange(40, 100)
        specs.append(Spec(P=R.choice([2, 3, 3]), S=S, D=D, eps=e, delta=d, c='x', N=R.randrange(0, 20),
                          stage=R.choice(['all', 'online', 'online']), seed=hash_int('c04/%d/%d' % (k, i)), rng='real' if i % 2 else 'seeded',
                          variant='sample', noise_mode='sample', tag='par%d' % (i % 4),
                          local_seeds=None if i % 3 else [[p * S + s for s in range(S)] for p in range(3)],
                          shared_seeds=None if i % 3 else [1000 + p for p in range(3)]))
    # one configuration run repeatedly: fresh noise every time
    rep = [Spec(P=3, S=2 if j % 2 else 1, D=90, eps=1.0, delta=1e-4, c='x', N=2, stage='online', seed=77, rng='real', variant='sample', noise_mode='sample', tag='repeat%d' % (j % 2)) for j in range(ctx.n(8, 24))]
    res = ctx.deploys(specs + rep, {'NOISE'}, nontrivial=lambda r: bool(r.noise))
    if ctx.viol:
        return
    pool = {}
    seenv = {}
    for r in res:
        if r.inconclusive or not r.noise:
            continue
        key = (r.spec.eps, r.spec.delta)
        pool.setdefault(key, []).extend([x for v in r.noise for x in v])
        for pi, v in enumerate(r.noise):
            # the share of every server separately
            S, D = r.spec.S, r.spec.D
            step = -(-D // S)
            for s in range(S):
                part = tuple(v[s * step:(s + 1) * step])[:28]
                if len(part) < 28:
                    continue
                kk = (key, part)
                if kk in seenv:
                    ctx.violation('two servers or runs add identical sampled noise: %s and %s' % (seenv[kk], (r.spec.tag, r.spec.seed, pi, s)),
                                  {'kind': 'deploy', 'spec': r.spec.dump(), 'messages': ['identical noise vectors']})
                seenv[kk] = (r.spec.tag, r.spec.seed, pi, s)
    ctx.count(noise_vectors_compared=len(seenv))
    for (e, d), xs in pool.items():
        pmf = noise_pmf(e, d)
        obs = {}
        for x in xs:
            obs[x] = obs.get(x, 0) + 1
        z, nb = chi_z(obs, pmf, len(xs))
        ctx.count(pooled_noise_rows=len(xs), fit_tests=1, fit_bins=nb)
        ctx.sample({'eps': e, 'delta': d, 'rows': len(xs), 'mean': round(sum(xs) / len(xs), 3), 'fit_z': round(z, 2)}, 12)
        if z > 8:
            ctx.violation('sampled noise for eps=%g delta=%g does not follow its distribution (z=%.1f over %d rows)' % (e, d, z, len(xs)),
                          {'kind': 'stat', 'eps': e, 'delta': d, 'hist': obs})
        # neighbouring rows are independent
        m = sum(xs) / len(xs)
        v = sum((x - m) ** 2 for x in xs)
        if v > 0 and len(xs) > 300:
            ac = sum((a - m) * (b - m) for a, b in zip(xs, xs[1:])) / v * math.sqrt(len(xs))
            if abs(ac) > 8:
                ctx.violation('noise of neighbouring rows correlates (z=%.1f)' % ac, {'kind': 'stat', 'eps': e, 'delta': d})


def c05(ctx):
    common(ctx, 'in-process: local and distributed shufflers driven through shuffle and deshuffle for random counts, noise and seeds; '
                'deployments with two or more servers where every forwarded slice, every landing slot and every returned reply is matched; '
                'non-trivial: at least one message crossed a multi-server party')
    k = ctx.seed
    st = ctx.unit('u_shuffle', 'san', ['biject', k, ctx.n(2, 20)])
    if st:
        ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    specs = []
    for i in range(ctx.n(90, 700)):
        specs.append(gen.small('c05/%d/%d' % (k, i), S=[2, 2, 3, 4, 5, 6, 1][i % 7], stage=['all', 'all', 'online', 'offline'][(i // 7) % 4]))
    specs += heavies('c05', k, ctx.n((3,), (3, 3, 3))) + giants('c05', k, ctx.n((1, 2), (1, 1, 1, 1, 2, 2)))
    specs += [s for s in boundaries('c05', k, ctx.n(24, 120)) if s.S > 1] + [s for s in wides('c05', k, ctx.n(24, 80)) if s.S > 1]
    specs += smalls('c05s', k, ctx.n(16, 120), variant='sample', S=2 + k % 4)
    ctx.deploys(specs, {'BAL', 'CONS', 'RESP', 'FRAME'}, nontrivial=moved)


def c06(ctx):
    common(ctx, 'in-process: frequency of all orders of up to 5 messages, position matrices and destinations over consecutive and '
                'random seeds, large single permutations; deployments of 200-2000 messages where arrival and departure order, '
                'neighbour survival, destination server and real/noise interleaving are tested at every party; '
                'non-trivial: at least one permutation of 64 or more messages was judged')
    k = ctx.seed
    st = ctx.unit('u_shuffle', 'san', ['mix', k, ctx.n(1, 6)])
    if st:
        ctx.evaluations += int(st.get('uniformity_tests', 0) + st.get('large_perms', 0))
    specs = []
    for i in range(ctx.n(96, 600)):
        R = random.Random('c06/%d/%d' % (k, i))
        S = [1, 1, 2, 3, 4][i % 5]
        D = R.randrange(max(S, 20), 80)
        c = R.choice([0, 0, 1, 3, 5])
        N = [R.randrange(200, 500) if S > 1 else R.randrange(100, 700) for _ in range(S)]
        if i % 7 == 3 and S > 1:
            N = [0] * S
            N[R.randrange(S)] = 600
        gs = i % 4 == 0
        P = R.choice([2, 3])
        specs.append(Spec(P=P, S=S, D=D, c=c, N=N, stage=['all', 'all', 'offline'][i % 3], seed=hash_int('c06/%d/%d' % (k, i)),
                          local_seeds=[[p * S + s for s in range(S)] for p in range(P)] if gs else None,
                          shared_seeds=[1000 + p for p in range(P)] if gs else None,
                          env=gen.env_noise(R, S, small=False)))
    # power-of-two and buffer-sized batches
    for i, n in enumerate([256, 512, 1024, 1842, 2048, 4096][:ctx.n(4, 6)]):
        specs.append(Spec(P=2, S=1 + i % 2, D=20, c=None if i % 2 else 2, N=n, stage='all', seed=hash_int('c06p/%d/%d' % (k, i)), variant='opt'))
    ctx.deploys(specs, {'MIX'}, nontrivial=lambda r: r.stats.get('mix_perms', 0) > 0)


def c07(ctx):
    common(ctx, 'deployments in which one randomly chosen process is delayed by 20-120 ms at a chosen byte of one of its connections '
                '(the last bytes of a batch, a readiness byte, the first reply), so a missing barrier becomes visible; barriers are judged '
                'from the time stamps of all processes; non-trivial: at least one ordering fact was decided')
    k = ctx.seed
    specs = []
    for i in range(ctx.n(360, 2400)):
        R = random.Random('c07/%d/%d' % (k, i))
        S = [1, 2, 2, 3, 4][i % 5]
        P = R.choice([2, 2, 3, 4])
        D = R.randrange(S, 20 + S)
        c = R.choice([None, 0, 1, 2])
        N = [R.choice([1, 2, R.randrange(1, 40)]) for _ in range(S)]
        if i % 6 == 5:
            N[R.randrange(S)] = 0
        stage = R.choice(['all', 'all', 'all', 'online', 'offline'])
        sp = Spec(P=P, S=S, D=D, c=c, N=N, stage=stage, seed=hash_int('c07/%d/%d' % (k, i)), order=R.choice(['rev', 'fwd', 'rand']),
                  env=gen.env_noise(R, S) if i % 3 == 0 else {})
        cnt = link_counts(sp)
        rules = {}
        for _ in range(R.choice([1, 1, 2])):
            p, s = R.randrange(P), R.randrange(S)
            n = cnt[p][s]
            cb = n * 124 * (P - p) if stage != 'online' else 0
            qb = n * 12 if stage != 'offline' else 0
            rd = 1 if stage == 'online' else 2
            us = R.choice([20000, 50000, 120000])
            kinds = []
            if cb:
                kinds += [('b', 'r', 4 + cb - 1), ('b', 'r', 4), ('b', 'r', 4 + cb // 2)]
            if qb:
                kinds += [('b', 'r', 4 + cb + qb - 1), ('b', 'r', 4 + cb), ('b', 'w', rd), ('b', 'w', rd + 52 * n - 1), ('b', 'w', rd + 52 * (n // 2))]
            kinds += [('b', 'w', 0), ('b', 'r', 0)]
            if rd == 2:
                kinds.append(('b', 'w', 1))
            if S > 1:
                kinds += [('s', 'w', R.randrange(0, 40)), ('s', 'r', R.randrange(0, 40)), ('s', 'w', R.randrange(0, 4000))]
            role, d, off = R.choice(kinds)
            rules.setdefault('p%ds%d' % (p, s), []).append('d,%s,%s,%d,%d' % (role, d, off, us))
        sp.penv = {n: {'VSHIM_RULES': ';'.join(v)} for n, v in rules.items()}
        specs.append(sp)
    # a slow client
    for i in range(ctx.n(28, 150)):
        R = random.Random('c07c/%d/%d' % (k, i))
        S, P = R.choice([2, 3]), R.choice([2, 3])
        N = [R.randrange(1, 30) for _ in range(S)]
        s = R.randrange(S)
        stage = R.choice(['all', 'online', 'offline'])
        cb = N[s] * 124 * P if stage != 'online' else 0
        off = 4 + (R.choice([0, cb - 1, cb // 2]) if cb else 0) + (R.choice([0, 0, 12 * N[s] - 1]) if stage == 'online' else 0)
        if stage == 'all' and R.random() < .5:
            off = 4 + cb + R.choice([0, 12 * N[s] - 1])
        specs.append(Spec(P=P, S=S, D=10 + S, c=R.choice([None, 1]), N=N, stage=stage, seed=hash_int('c07c/%d/%d' % (k, i)),
                          penv={'c%d' % s: {'VSHIM_RULES': 'd,n,w,%d,150000' % off, 'VSHIM_WSEG': 'max:%d' % R.choice([12, 124, 31])}}, tag='slowclient'))
    ctx.deploys(specs, {'ORDER'}, workers=8, nontrivial=lambda r: r.stats.get('order_facts', 0) > 0)


def c08(ctx):
    common(ctx, 'in-process: incremental sharing driven with random and edge-biased randomness for 1-32 parties over all kinds of rows, '
                'fold order, field range, invertibility and uniformity of every prefix; deployments with edge randomness where every tally '
                'on every link is recomputed from the decrypted shares; non-trivial: at least one message travelled')
    k = ctx.seed
    st = ctx.unit('u_sharing', 'san', ['incremental', k, ctx.n(2, 20)])
    if st:
        ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    specs = giants('c08', k, ctx.n((0,), (0,) * 8)) + smalls('c08e', k, ctx.n(50, 400), rng='edge', stage='all') + smalls('c08', k, ctx.n(40, 300), stage='all') + wides('c08', k, ctx.n(16, 80))
    specs += [Spec(P=P, S=1 + P % 2, D=97, c=1, N=60, stage='all', seed=hash_int('c08p/%d/%d' % (k, P)), rng=['edge', 'seeded'][P % 2]) for P in range(2, ctx.n(10, 20))]
    specs.append(Spec(P=3, S=1, D=500, c=1, N=900, stage='all', seed=hash_int('c08v/%d' % k), rng='seeded', tag='volume'))
    ctx.deploys(specs, {'SHARE', 'RET'}, nontrivial=moved, judge=lambda r: ctx.judge_benign(r, {'SHARE', 'RET'}) or
                ['%s: %s' % v for v in r.viol if v[0] == 'CONS' and 'tally' in v[1] or v[0] == 'SECR' and ('shares' in v[1] or 'tallies' in v[1] or 'unmasked' in v[1])])


def c09(ctx):
    common(ctx, 'in-process: additive masks for 1-32 parties: xor to zero, any proper subset uniform, in-place and aliasing use; deployments '
                'where every reply on every link must equal the row masked by exactly the shares of the parties below, and never travels in clear; '
                'non-trivial: at least one reply was checked')
    k = ctx.seed
    st = ctx.unit('u_sharing', 'san', ['additive', k, ctx.n(2, 20)])
    if st:
        ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    specs = giants('c09', k, ctx.n((0,), (0,) * 8)) + smalls('c09', k, ctx.n(90, 600), stage='all') + smalls('c09e', k, ctx.n(20, 200), stage='all', rng='edge') + wides('c09', k, ctx.n(16, 80))
    specs += [Spec(P=P, S=1 + P % 2, D=97, c=1, N=60, stage='all', seed=hash_int('c09p/%d/%d' % (k, P)), rng='seeded') for P in range(2, ctx.n(10, 20))]
    specs.append(Spec(P=3, S=1, D=500, c=1, N=2200, stage='all', seed=hash_int('c09v/%d' % k), rng='seeded', tag='volume'))
    ctx.deploys(specs, {'RESP', 'RET'}, nontrivial=lambda r: r.stats.get('responses_checked', 0) > 0,
                judge=lambda r: ctx.judge_benign(r, {'RESP', 'RET'}) or
                ['%s: %s' % v for v in r.viol if v[0] == 'SECR' and ('answers' in v[1] or 'in clear' in v[1] or 'preshare' in v[1] or 'mask' in v[1])])


def c10(ctx):
    common(ctx, 'in-process: onions of 1-16 layers peeled in order, by the wrong party, out of order, truncated and with every byte flipped; '
                'deployments where every ciphertext on every link is opened independently and its inner onion must be what the party forwards; '
                'non-trivial: at least one ciphertext was opened')
    k = ctx.seed
    st = ctx.unit('u_onion', 'san', [k, ctx.n(1, 10)])
    if st:
        ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('max_z',)))
    specs = giants('c10', k, ctx.n((0,), (0,) * 8)) + smalls('c10', k, ctx.n(90, 600), stage=None) + wides('c10', k, ctx.n(16, 80))
    specs += [Spec(P=P, S=1 + P % 2, D=9, c=1, N=11, stage='offline', seed=hash_int('c10p/%d/%d' % (k, P))) for P in range(2, ctx.n(14, 24))]
    specs = [s for s in specs if s.stage != 'online']
    ctx.deploys(specs, {'ONION'}, nontrivial=moved,
                judge=lambda r: ctx.judge_benign(r, {'ONION'}) or
                ['%s: %s' % v for v in r.viol if v[0] == 'SECR' and 'encryption randomness' in v[1] or v[0] == 'CONS' and ('cipher' in v[1] or 'offline message' in v[1] or 'layer' in v[1])])


def c11(ctx):
    common(ctx, 'batches at, one below and one above every buffer capacity of every link, and small random batches, under read and write '
                'segmentation (single bytes, odd sizes, cuts inside a record, cuts at the end), signals of readiness withheld, small kernel '
                'buffers; bytes sent and received on each link must agree and parse into exactly the announced records; '
                'in-process streams of every kind of record, cut anywhere, with announced counts up to 2^32 - 1; '
                'non-trivial: at least one message travelled; distinct: by order of socket events')
    k = ctx.seed
    batches(ctx, (('san', 'stream', ctx.n(4, 40)),))
    specs = []
    for i in range(ctx.n(70, 600)):
        sp = gen.small('c11/%d/%d' % (k, i), env=False)
        R = random.Random('c11/%d/%d' % (k, i))
        sp.env = {'VSHIM_RSEG': gen.SEGS[1 + i % (len(gen.SEGS) - 1)], 'VSHIM_WSEG': R.choice(gen.SEGS)}
        if R.random() < .3:
            sp.env['VSHIM_POLLHIDE'] = '500'
        if R.random() < .3:
            sp.env['VSHIM_BUFCLAMP'] = '2000' if sp.S == 1 else '212992'
        specs.append(sp)
    specs += giants('c11', k, ctx.n((0, 1), (0, 1) * 6))
    specs += boundaries('c11', k, ctx.n(56, 320))
    specs += [s for s in wides('c11', k, ctx.n(16, 80)) if s.tag != 'bignoise' or ctx.thorough]
    # one exact boundary of each kind without perturbation, for every offset
    for P in (2, 3):
        for d in (-1, 0, 1):
            specs.append(Spec(P=P, S=1, D=5, c=None, N=gen.ccap(P) + d, stage='offline', seed=hash_int('c11x/%d/%d/%d' % (k, P, d)), tag='exact'))
    for d in (-1, 0, 1):
        specs.append(Spec(P=2, S=1, D=5, c=None, N=gen.QCAP + d, stage='online', seed=hash_int('c11q/%d/%d' % (k, d)), tag='exact'))
        specs.append(Spec(P=2, S=1, D=5, c=None, N=gen.RCAP + d, stage='online', seed=hash_int('c11r/%d/%d' % (k, d)), tag='exact'))
        specs.append(Spec(P=2, S=2, D=5, c=None, N=[gen.SCAP + d, 3], stage='all', seed=hash_int('c11s/%d/%d' % (k, d)), tag='exact'))
    ctx.deploys(specs, {'FRAME', 'CONS', 'RESP', 'RET', 'ONION', 'BAL'}, nontrivial=moved)


def c18(ctx):
    common(ctx, 'deployments with equal, unequal, empty and large client batches, several servers and noise; every secret installed at a '
                'party is decrypted and its tag, shares, mask and encryption randomness compared with all others of the run, and over pairs '
                'of runs of one configuration; non-trivial: at least one message travelled')
    k = ctx.seed
    specs = giants('c18', k, ctx.n((0, 1), (0, 1) * 6)) + heavies('c18', k, ctx.n((0, 2), (4, 0, 1, 2))) + smalls('c18', k, ctx.n(60, 500), stage='all', rng='seeded') + smalls('c18r', k, ctx.n(40, 300), rng='real')
    specs += smalls('c18s', k, ctx.n(30, 200), variant='sample', rng='real')
    for i in range(ctx.n(24, 150)):
        R = random.Random('c18/%d/%d' % (k, i))
        S = R.choice([2, 3, 4])
        N = [R.choice([0, 1, R.randrange(200), R.randrange(600)]) for _ in range(S)]
        specs.append(Spec(P=R.choice([2, 3, 4]), S=S, D=R.randrange(S, 50), c=R.choice([1, 2, 4]), N=N, stage='all', seed=hash_int('c18u/%d/%d' % (k, i)), rng='real'))
    specs.append(Spec(P=3, S=1, D=500, c=1, N=2500, stage='all', seed=hash_int('c18v/%d' % k), rng='real', tag='volume'))
    specs.append(Spec(P=2, S=3, D=300, c=2, N=900, stage='all', seed=hash_int('c18w/%d' % k), rng='real', tag='volume'))
    specs += [s for s in wides('c18', k, ctx.n(8, 80)) if s.tag != 'bignoise']
    ctx.deploys(specs, {'TAG', 'SECR'}, nontrivial=moved)
    # several runs of one configuration: nothing secret comes back
    rep = []
    for g in range(ctx.n(4, 12)):
        R = random.Random('c18f/%d/%d' % (k, g))
        S = [1, 2, 3, 1][g % 4]
        for j in range(3):
            rep.append(Spec(P=2 + g % 2, S=S, D=20, c=1 + g % 2, N=30, stage=['all', 'offline'][g // 2 % 2], seed=hash_int('c18f/%d/%d' % (k, g)),
                            rng='real', variant='san' if g % 4 != 3 else 'sample', tag='again%d' % g))
    seen = {}
    for r in ctx.deploys(rep, {'TAG', 'SECR'}, nontrivial=moved):
        for kind, ids in r.secrets.items():
            mine = set(ids)
            for other, theirs in seen.get((r.spec.tag, kind), []):
                if mine & theirs:
                    ctx.violation('%d of %d values of %s come back in another run of the same configuration' % (len(mine & theirs), len(mine), kind),
                                  {'kind': 'deploy', 'spec': r.spec.dump(), 'messages': ['run twice and compare']})
            seen.setdefault((r.spec.tag, kind), []).append((0, mine))
            ctx.count(secrets_compared_between_runs=len(mine))


ON_RE, OFF_RE = re.compile(r'Online time: ([0-9]+)ms'), re.compile(r'Offline time: ([0-9]+)ms')
SLACK_MS = 25.0     # injected delays are far longer


def reported(r):
    """disagreements between the times and counts the parties print and what was observed on their links"""
    out = []
    sp = r.spec
    n = 0
    for p, s, on_lo, on_hi, of_lo, of_hi, cin, cout in r.times:
        name = 'p%ds%d' % (p, s)
        text = r.out.get(name, '')
        for stage, rx, lo, hi, due, floors in (('online', ON_RE, on_lo, on_hi, sp.stage != 'offline', 1), ('offline', OFF_RE, of_lo, of_hi, sp.stage != 'online', 2)):
            m = rx.findall(text)
            if len(m) != (1 if due else 0):
                out.append('%s reports %d %s times in a run with stage %s' % (name, len(m), stage, sp.stage))
                continue
            if not due:
                continue
            x = float(m[0])
            n += 1
            if x > hi + SLACK_MS:
                out.append('%s reports %s time %d ms, but at most %.1f ms passed between having its batch and being done' % (name, stage, x, hi))
            if x + floors + SLACK_MS < lo:
                out.append('%s reports %s time %d ms, but its work took at least %.1f ms' % (name, stage, x, lo))
    r.stats['times_checked'] = n
    r.stats['times_bounded_both'] = sum((t[2] > 100 and t[3] < 1e17) + (t[4] > 100 and t[5] < 1e17) for t in r.times)
    return out


def c22(ctx):
    common(ctx, 'deployments with injected delays of 0.3-0.9 s in chosen phases (slow counts, slow client in either stage, slow next party at its ready '
                'signals and replies, slow siblings); every printed stage time is compared with lower and upper bounds computed from the recorded '
                'events of that party and its siblings; distinct: by the global order of socket events; non-trivial: at least one printed time was bounded')
    k = ctx.seed
    specs = []
    for i in range(ctx.n(120, 900)):
        R = random.Random('c22/%d/%d' % (k, i))
        S, P = R.choice([1, 1, 2, 3]), R.choice([2, 2, 3])
        N = [R.randrange(1, 30) for _ in range(S)]
        stage = ['all', 'online', 'all', 'offline'][i % 4]
        sp = Spec(P=P, S=S, D=8 + S, c=R.choice([0, 1, 2]), N=N, stage=stage, seed=hash_int('c22/%d/%d' % (k, i)))
        cnt = link_counts(sp)
        rd = 1 if stage == 'online' else 2
        rules = {}
        for _ in range(R.choice([1, 1, 2, 3])):
            s, us = R.randrange(S), R.choice([300000, 500000, 900000])
            if R.random() < .5:     # the client
                cb = N[s] * 124 * P if stage != 'online' else 0
                offs = [0, 4] + ([4 + cb // 2, 4 + cb - 1] if cb else [])
                if stage == 'all':
                    offs += [4 + cb, 4 + cb, 4 + cb + 12 * N[s] - 1]
                if stage == 'online':
                    offs += [4 + 12 * N[s] - 1]
                rules.setdefault('c%d' % s, []).append('d,n,w,%d,%d' % (R.choice(offs), us))
            else:                   # a later party
                p = R.randrange(1, P)
                kinds = [('b', 'w', 0)]
                if rd == 2:
                    kinds.append(('b', 'w', 1))
                if stage != 'offline' and cnt[p][s]:
                    kinds += [('b', 'w', rd), ('b', 'w', rd + 52 * cnt[p][s] - 1)]
                role, d, off = R.choice(kinds)
                rules.setdefault('p%ds%d' % (p, s), []).append('d,%s,%s,%d,%d' % (role, d, off, us))
        sp.penv = {n: {'VSHIM_RULES': ';'.join(v)} for n, v in rules.items()}
        specs.append(sp)
    specs += smalls('c22', k, ctx.n(70, 500))
    ctx.deploys(specs, set(), workers=8, judge=lambda r: ctx.judge_benign(r, set()) or reported(r), nontrivial=lambda r: r.stats.get('times_checked', 0) > 0)
