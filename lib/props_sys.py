"""Configuration, command line, faults, liveness, memory, orchestrator, topology
(C12-C17, C19, C20)."""
import itertools, json, math, os, random, re, shutil, struct, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import build, deploy, gen, fw
from deploy import Spec, SAN_ENV
from gen import smalls, boundaries, wides, giants, hash_int, link_counts
from props_net import common, moved

CRASH = (-11, -7, -4, -8)


def unit_exe(ctx, name, variant='san'):
    b = build.Builder()
    try:
        return b.unit(name, variant)
    except build.BuildError:
        return None
    finally:
        b.close()


def decode_cfg(path):
    """independent decoder of the file layout"""
    d = open(path, 'rb').read()
    o = 0

    def take(f):
        nonlocal o
        v = struct.unpack_from(f, d, o)
        o += struct.calcsize(f)
        return v
    db, e, dl, P, S = take('<Iddii')
    ps = []
    for p in range(P):
        seed, = take('<i')
        pk, sk = d[o:o + 32], d[o + 32:o + 64]
        o += 64
        sv = []
        for s in range(S):
            ls, po, pp = take('<iii')
            z = d.index(b'\0', o)
            sv.append([ls, po, pp, d[o:z].decode('latin1')])
            o = z + 1
        ps.append({'seed': seed, 'pk': pk.hex(), 'sk': sk.hex(), 'servers': sv})
    return {'db': db, 'eps': float(e).hex(), 'delta': float(dl).hex(), 'P': P, 'S': S, 'parties': ps}


def read_cfg(ctx, path):
    """the file as the tree reads it (or, if its API changed, by layout)"""
    exe = unit_exe(ctx, 'u_dumpcfg')
    if exe is None:
        return decode_cfg(path)
    p = subprocess.run([exe, path], capture_output=True, text=True, env=dict(os.environ, **SAN_ENV))
    m = re.search(r'@@JSON(\{.*\})', p.stdout, re.S)
    if not m:
        return {'error': 'reader ends with %d: %s' % (p.returncode, p.stderr[-300:])}
    return json.loads(m.group(1))


def san_report(rc, err):
    if 'AddressSanitizer' in err or 'runtime error:' in err:
        if re.search(r'allocation-size-too-big|out-of-memory|requested allocation size|rss limit', err):
            return None
        return deploy.first_report(err)
    if rc in CRASH:
        return 'signal %d' % -rc
    return None


# --------------------------------------------------------------------------
def c12(ctx):
    common(ctx, 'in-process round trips of random and extreme configurations through memory and files, every truncation, extensions and '
                'random mutations of valid files under ASan/UBSan; the shipped example; damaged files given to real processes; '
                'non-trivial: a file was written, damaged or read; distinct: by content')
    st = ctx.unit('u_config', 'san', [ctx.seed, ctx.n(1, 12), ctx.workdir])
    if st:
        ctx.evaluations += int(sum(v for a, v in st.items() if a not in ('mutants_accepted',)))
        ctx.distinct.update(('u', i) for i in range(int(st.get('roundtrips', 0))))
    # the documented example
    ex = os.path.join(fw.REPO, 'config', 'example.txt')
    c = read_cfg(ctx, ex)
    ctx.evaluations += 1
    ctx.sample({'example': {k: v for k, v in c.items() if k in ('db', 'eps', 'delta', 'P', 'S', 'error')}})
    if c.get('error') or (c['db'], float.fromhex(c['eps']), float.fromhex(c['delta']), c['P'], c['S']) != (100, 1.0, 0.1, 2, 1):
        ctx.violation('config/example.txt reads as %s' % json.dumps(c)[:300], {'kind': 'cmd', 'cmd': 'read config/example.txt'})
    # real processes on damaged files: refuse, do not crash, do not serve
    R = random.Random('c12/%d' % ctx.seed)
    bins = ctx.bins('san')
    wd = ctx.workdir
    good = os.path.join(wd, 'good')
    ports = [deploy.PORTS.take() for _ in range(8)]
    lines = '20 1.0 0.1 2 2\n'
    for p in range(2):
        pk, sk = deploy.keypair(b'%d' % p)
        lines += '%d %s %s\n' % (p, pk.hex(), sk.hex())
        for s in range(2):
            lines += '%d %d %d 127.0.0.1\n' % (s, ports[p * 4 + s], ports[p * 4 + 2 + s])
    if bins.get('mkconfig'):
        subprocess.run([bins['mkconfig'], good], input=lines, text=True, env=dict(os.environ, **SAN_ENV), check=False)
    if not os.path.exists(good):
        sp = Spec(P=2, S=2, D=20, eps=1.0, delta=0.1, c='x')
        deploy.write_config(good, sp, [deploy.keypair(b'%d' % p) for p in range(2)],
                            [ports[0:2], ports[4:6]], [ports[2:4], ports[6:8]])
    data = open(good, 'rb').read()
    cases = [('missing', None), ('empty', b''), ('directory', 'dir')]
    cases += [('cut at %d' % n, data[:n]) for n in R.sample(range(1, len(data)), ctx.n(22, 180))]
    cases += [('extended by %d' % n, data + R.randbytes(n)) for n in (1, 2, 4, 12, 300)]

    def one(ic):
        i, (what, d) = ic
        f = os.path.join(wd, 'bad%d' % i)
        if d == 'dir':
            os.mkdir(f)
        elif d is not None:
            with open(f, 'wb') as h:
                h.write(d)
        log = f + '.log'
        try:
            p = subprocess.run([bins['main'], '--config=' + f, '--stage=all', '--role=party', '--party_id=1', '--server_id=0'],
                               capture_output=True, text=True, errors='replace', timeout=60,
                               env=dict(os.environ, VSHIM_LOG=log, **SAN_ENV))
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = 0, 'keeps running'
        rep = san_report(rc, err)
        with ctx.lock:
            ctx.evaluations += 1
            ctx.distinct.add(('proc', what))
            ctx.stats['processes_on_damaged_files'] += 1
        if rep or rc == 0:
            ctx.violation('a process started on a file %s: %s' % (what, rep or 'accepts it'),
                          {'kind': 'cmd', 'what': what, 'rc': rc, 'err': err[-1500:], 'hex': d.hex() if isinstance(d, bytes) else d})
    with ThreadPoolExecutor(8) as ex_:
        list(ex_.map(one, enumerate(cases)))
    # configurations written by the tree run, over odd but legal values
    specs = [gen.small('c12/%d/%d' % (ctx.seed, i), N=3, c=None) for i in range(ctx.n(10, 60))]
    for sp in specs:
        if R.random() < .5:
            sp.local_seeds = [[R.choice([0, -1, 2**31 - 1, -2**31]) for _ in range(sp.S)] for _ in range(sp.P)]
    ctx.deploys(specs, {'RET', 'FRAME'}, nontrivial=moved)


def c13(ctx):
    common(ctx, 'the real generator run with argument lists and interactively for many party/server counts, tables, parameters and '
                'addresses, its file compared field by field with what was asked; generated configurations and the shipped example run '
                'end to end; invalid command lines for the generator and the protocol binary; non-trivial: a file or refusal was judged; distinct: by argument list')
    bins = ctx.bins('san')
    R = random.Random('c13/%d' % ctx.seed)
    wd = ctx.workdir
    dump = unit_exe(ctx, 'u_dumpcfg')
    env = dict(os.environ, **SAN_ENV)
    keys_seen = {}

    def fail(what, **k):
        ctx.violation(what, {'kind': 'cmd', **k})

    def ev(key):
        with ctx.lock:
            ctx.evaluations += 1
            ctx.distinct.add(key)

    def check_file(f, args, P, S, db, eps, delta, ips):
        c = read_cfg(ctx, f)
        who = 'gen_config %s' % ' '.join(args)
        if c.get('error'):
            return fail('%s: %s' % (who, c['error']), args=args)
        if (c['P'], c['S'], c['db']) != (P, S, db) or len(c['parties']) != P:
            return fail('%s writes %d parties x %d servers, %d rows' % (who, c['P'], c['S'], c['db']), args=args)
        if float.fromhex(c['eps']) != eps or float.fromhex(c['delta']) != delta:
            return fail('%s writes epsilon %s delta %s' % (who, float.fromhex(c['eps']), float.fromhex(c['delta'])), args=args)
        pts, lseeds, sseeds = [], [], []
        for p, pc in enumerate(c['parties']):
            sseeds.append(pc['seed'])
            if len(pc['servers']) != S:
                return fail('%s: party %d has %d servers' % (who, p, len(pc['servers'])), args=args)
            sk = bytes.fromhex(pc['sk'])
            out = (deploy.ctypes.c_ubyte * 32)()
            deploy._sod.crypto_scalarmult_base(out, sk)
            if bytes(out).hex() != pc['pk']:
                return fail('%s: the keys of party %d do not belong together' % (who, p), args=args)
            with ctx.lock:
                if pc['sk'] in keys_seen or pc['pk'] in keys_seen:
                    fail('%s: party %d gets a key that was already handed out' % (who, p), args=args)
                keys_seen[pc['sk']] = keys_seen[pc['pk']] = 1
            for s, (ls, po, pp, ip) in enumerate(pc['servers']):
                lseeds.append(ls)
                pts += [po, pp]
                if ip != ips[p * S + s]:
                    return fail('%s: server %d of party %d has address %s instead of %s' % (who, s, p, ip, ips[p * S + s]), args=args)
        if len(set(pts)) != len(pts) or not all(0 < x < 65536 for x in pts):
            return fail('%s: ports collide: %s' % (who, sorted(pts)), args=args)
        if P * S <= 1000 and not all(3000 <= x < 5000 for x in pts):      # what README.md has opened for them
            return fail('%s: ports outside [3000, 5000): %s' % (who, sorted(pts)), args=args)
        if len(set(lseeds)) != len(lseeds) or len(set(sseeds)) != len(sseeds):
            return fail('%s: seeds repeat' % who, args=args)
        ctx.count(files_checked=1, fields_checked=5 + P * (3 + 4 * S))

    grid = [(2, 1), (2, 2), (3, 1), (3, 2), (2, 5), (4, 3), (5, 5), (10, 1), (2, 16), (12, 12), (31, 32), (2, 255), (255, 2), (17, 7), (9, 50), (40, 30), (27, 37), (255, 100), (8, 126), (12, 84)]
    jobs = []
    for i in range(ctx.n(90, 500)):
        P, S = grid[i] if i < len(grid) else (R.randrange(2, 12), R.randrange(1, 12))
        db = R.choice([S, 1000, 2**31 - 1, 2**31, 2**32 - 1, 3 * 10**9, R.randrange(1, 10**6), 100])
        e, d = R.choice([('0.1', '0.000001'), ('1', '0.1'), ('0', '0'), ('0.693147180559945', '1e-9'), ('2.5', '0'), ('1e-3', '0.05'), ('10', '0.999999')])
        ips = ['10.%d.%d.%d' % (i, p, s) for p in range(P) for s in range(S)] if i % 2 else ['127.0.0.1'] * (P * S)
        if i % 6 == 1:
            ips = [R.choice(['255.255.255.255', '1.2.3.4', '192.168.100.100', '127.0.0.1', '0.0.0.0']) for _ in ips]
        jobs.append((i, P, S, db, e, d, ips, 'inter' if i % 5 == 2 and P * S < 400 else 'args'))

    def gen_one(j):
        i, P, S, db, e, d, ips, how = j
        f = os.path.join(wd, 'g%d' % i)
        if i % 3 == 0:      # an older, longer file is replaced
            with open(f, 'wb') as h:
                h.write(b'z' * 40000)
        if how == 'args':
            a = [f, str(db), e, d, str(P), str(S)] + (ips if i % 2 else [])
            inp = ''
        else:
            a = [f]
            inp = '%d\n%s %s\n%d %d\n' % (db, e, d, P, S) + ''.join((x if i % 2 else '') + '\n' for x in ips)
        p = subprocess.run([bins['gen_config']] + a, input=inp, capture_output=True, text=True, env=env, timeout=120)
        ev((how, P, S, db, e, d, i % 2))
        desc = a[1:] if how == 'args' else ['<interactive>', str(db), e, d, str(P), str(S)]
        if p.returncode != 0:
            return fail('gen_config %s ends with %d: %s' % (' '.join(desc[:8]), p.returncode, (san_report(p.returncode, p.stderr) or p.stderr)[-200:]), args=a)
        check_file(f, desc[:8], P, S, db, float(e), float(d), ips)
        if i < 3:
            ctx.sample({'gen_config': desc[:8]})
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(gen_one, jobs))
    # refused argument lists
    for i, a in enumerate([['100'], ['100', '0.1'], ['100', '0.1', '0.1'], ['100', '0.1', '0.1', '2'], ['100', '1', '0.1', '2', '2', '1.1.1.1'],
                           ['100', '1', '0.1', '2', '2', '1.1.1.1', '1.1.1.2', '1.1.1.3'], ['100', '1', '0.1', '2', '1', '1.1.1.1', '1.1.1.2', '1.1.1.3'],
                           ['x', '1', '0.1', '2', '1'], ['100', 'y', '0.1', '2', '1'],
                           # numbers of parties or servers that no configuration can hold
                           ['100', '1', '0.1', '300', '2'], ['100', '1', '0.1', '2', '256'], ['100', '1', '0.1', '258', '1'], ['100', '1', '0.1', '2', '65537'],
                           ['100', '1', '0.1', '-1', '2'], ['100', '1', '0.1', '2', '-254'], ['100', '1', '0.1', '255', '255'],
                           # table sizes that no configuration can hold
                           ['-5', '1', '0.1', '2', '1'], ['4294967296', '1', '0.1', '2', '1'], ['4294967301', '1', '0.1', '2', '1'], ['-4294967295', '1', '0.1', '2', '1'],
                           ['99999999999999999999999', '1', '0.1', '2', '1'],
                           ['<', '300', '2'], ['<', '2', '257'], ['<', '-254', '1'], ['<', '255', '255'],
                           # numbers that cannot be read
                           ['<<', 'abc\n1 0.1\n2 1\n\n\n'], ['<<', '10\nx 0.1\n2 1\n\n\n'], ['<<', '10\n1 y\n2 1\n\n\n'], ['<<', '10\n1 0.1\nz 1\n\n\n'], ['<<', '10\n1 0.1\n2 z\n\n\n'],
                           ['<<', ''], ['<<', '10\n'], ['<<', '10\n1 0.1\n'], ['<<', '-5\n1 0.1\n2 1\n\n\n'], ['<<', '4294967296\n1 0.1\n2 1\n\n\n'],
                           ['<<', '99999999999999999999999\n1 0.1\n2 1\n\n\n']]):
        f = os.path.join(wd, 'r%d' % i)
        if a[0] == '<':
            n = min(abs(int(a[1]) * int(a[2])), 70000)
            inp, args = '100\n1 0.1\n%s %s\n' % (a[1], a[2]) + '\n' * n, []
        elif a[0] == '<<':
            inp, args = a[1], []
        else:
            inp, args = '', a
        p = subprocess.run([bins['gen_config'], f] + args, capture_output=True, text=True, env=env, timeout=60, input=inp)
        ev(('refuse', tuple(a)))
        rep = san_report(p.returncode, p.stderr)
        if rep or p.returncode == 0 or os.path.exists(f):
            fail('gen_config %s is not refused (%s)' % (' '.join(a), rep or 'exit %d, file %s' % (p.returncode, 'written' if os.path.exists(f) else 'absent')), args=a)
    # command lines of the protocol binary
    cfgf = os.path.join(wd, 'cfg')
    subprocess.run([bins['gen_config'], cfgf, '50', '1', '0.1', '3', '2'], capture_output=True, env=env)
    base = {'role': 'party', 'stage': 'all', 'config': cfgf, 'server_id': '0', 'party_id': '0', 'queries': '3'}
    bad = []
    for role in ('party', 'client'):
        b = dict(base, role=role)
        for k in ('role', 'stage', 'config', 'server_id'):
            bad.append({x: v for x, v in b.items() if x != k})
            bad.append(dict(b, **{k: ''})) if k in ('role', 'stage', 'config') else None
        for st in ('ALL', 'offline,online', 'both', 'onlin', 'offlinee'):
            bad.append(dict(b, stage=st))
        for sid in ('-1', '2', '3', '255', '256', '258', '65536', '-256', '2147483647', 'x', '1.5'):
            bad.append(dict(b, server_id=sid))
        bad.append(dict(b, config=cfgf + '.none'))
        bad.append(dict(b, role=role.upper()))
    bad += [dict(base, role='server'), dict(base, role='backend')]
    b = dict(base)
    del b['party_id']
    bad.append(b)
    for pid in ('-1', '3', '4', '255', '256', '257', '-255', '2147483647', 'x'):
        bad.append(dict(base, party_id=pid))
    b = dict(base, role='client')
    del b['queries']
    bad.append(b)
    for q in ('-1', '-5', 'many', '1e3', '4294967296', '4294967299', '1099511627777', '99999999999999999999'):
        bad.append(dict(base, role='client', queries=q))
    bad = [x for x in bad if x]

    def cli(ib):
        i, f = ib
        log = os.path.join(wd, 'cli%d.log' % i)
        a = ['--%s=%s' % kv for kv in f.items()]
        try:
            p = subprocess.run([bins['main']] + a, capture_output=True, text=True, timeout=40, env=dict(env, VSHIM_LOG=log), stdin=subprocess.DEVNULL)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = 0, 'keeps running'
        a = [x.replace(wd, '') for x in a]
        ev(('cli', tuple(a)))
        net = [e for e in deploy.net_events(log)] if os.path.exists(log) else []
        rep = san_report(rc, err)
        if rep or rc == 0 or net:
            fail('command line %s is not refused (%s)' % (' '.join(a), rep or ('opens sockets' if net else 'exit %d %s' % (rc, err[-60:]))), args=a)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(cli, enumerate(bad)))
    if ctx.viol:
        return
    # the largest configurations come up: each process reaches the point of serving or connecting
    big = []
    for i, (P, S, who) in enumerate([(2, 255, ((0, 0), (0, 254), (0, 100), (1, 0), (1, 254))), (255, 2, ((0, 1), (254, 0), (253, 1)))]):
        f = os.path.join(wd, 'big%d' % i)
        subprocess.run([bins['gen_config'], f, '300', '0', '0', str(P), str(S)], capture_output=True, env=env)
        big += [(f, P, S, p, s, st) for p, s in who for st in (('all', 'online') if ctx.thorough else ('all',))]

    def up(j):
        f, P, S, pid, sid, st = j
        log = os.path.join(wd, 'up-%d-%d-%d-%s.log' % (P, pid, sid, st))
        p = subprocess.Popen([bins['main'], '--config=' + f, '--role=party', '--stage=' + st, '--party_id=%d' % pid, '--server_id=%d' % sid],
                             stdout=subprocess.DEVNULL, stderr=open(log + '.err', 'wb'), stdin=subprocess.DEVNULL, env=dict(env, VSHIM_LOG=log))
        t = time.time()
        while p.poll() is None and time.time() - t < 60 and not (os.path.exists(log) and deploy.net_events(log)):
            time.sleep(.05)
        time.sleep(.2)
        rc = p.poll()
        p.kill()
        p.wait()
        ev(('up', P, S, pid, sid, st))
        err = open(log + '.err', errors='replace').read()
        if 'already in use' in err:
            return ctx.note('a port of the generated configuration is taken on this machine; start skipped')
        if rc is not None:
            fail('server %d of party %d of a configuration with %d parties of %d servers ends at once with %d: %s' % (sid, pid, P, S, rc, err[-300:]), config=[P, S], who=[pid, sid])
        ctx.count(large_starts=1)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(up, big))
    if ctx.viol:
        return
    # generated configurations run (fixed ports: one after another)
    runs = [(2, 1, 30, '1', '0.1'), (3, 1, 12, '0', '0'), (2, 3, 25, '1', '0.2'), (3, 2, 40, '0.5', '0.5')] + ([(2, 5, 60, '1', '0.1'), (4, 4, 40, '1', '0.3')] if ctx.thorough else [])
    specs = []
    for i, (P, S, db, e, d) in enumerate(runs):
        f = os.path.join(wd, 'run%d' % i)
        # explicit loopback addresses for half of them
        a = [f, str(db), e, d, str(P), str(S)] + (['127.0.%d.%d' % (p + 1, s + 1) for p in range(P) for s in range(S)] if i % 2 else [])
        subprocess.run([bins['gen_config']] + a, capture_output=True, env=env)
        specs.append((f, P, S, db, float(e), float(d), 9))
    specs.append((os.path.join(fw.REPO, 'config', 'example.txt'), 2, 1, 100, 1.0, 0.1, 100))
    for i, (f, P, S, db, e, d, n) in enumerate(specs):
        c = read_cfg(ctx, f)
        if c.get('error'):
            fail('configuration for %dx%d cannot be read: %s' % (P, S, c['error']))
            continue
        given = {'path': f, 'ports': [[s[1] for s in p['servers']] for p in c['parties']],
                 'pports': [[s[2] for s in p['servers']] for p in c['parties']],
                 'keys': [[p['pk'], p['sk']] for p in c['parties']]}
        sp = Spec(P=P, S=S, D=db, eps=e, delta=d, c='x', N=n + i, stage='all', seed=hash_int('c13/%d/%d' % (ctx.seed, i)), given=given, rng='real', tag='generated')

        def judge(r):
            if any('Address already in use' in x for x in r.err.values()):
                ctx.note('a port of the generated configuration is taken on this machine; run skipped')
                return []
            return ctx.judge_benign(r, {'RET', 'CONS', 'FRAME', 'NOISE', 'ONION'})
        ctx.deploys([sp], None, judge=judge, workers=1, nontrivial=moved)


# --------------------------------------------------------------------------
def hostile_counts(ctx, k):
    """announced counts and sibling identities that are off by a little or a lot"""
    specs = []

    def put(role, off, value, n=4):
        return ['t,%s,r,%d,%d' % (role, off + j, 256 + (value >> (8 * j) & 255)) for j in range(n)]
    for i in range(ctx.n(140, 900)):
        R = random.Random('c14n/%d/%d' % (k, i))
        S = [1, 2, 2, 3, 2, 4][i % 6]
        P = R.choice([2, 2, 3])
        stage = R.choice(['all', 'online', 'online', 'offline'])
        c = R.choice([None, 1, 2, 5])
        sp = Spec(P=P, S=S, D=R.randrange(S, 40 + S), c=c, N=[R.randrange(1, 25) for _ in range(S)], stage=stage,
                  seed=hash_int('c14n/%d/%d' % (k, i)), expect='faulty', tag='counts')
        cnt = link_counts(sp)
        c0 = c or 0
        s, p = R.randrange(S), R.randrange(P)
        step = -(-sp.D // S)
        noise = max(0, min(sp.D, (s + 1) * step) - s * step) * c0
        kind = ['back', 'sib', 'noise', 'id', 'wrap'][i % 5]
        if S == 1 and kind in ('sib', 'noise', 'id'):
            kind = 'wrap' if i % 2 else 'back'
        if kind == 'id' or kind in ('sib', 'noise'):
            p = R.randrange(P - 1) if P > 1 else 0
        name = 'p%ds%d' % (p, s)
        if kind == 'back':          # the count announced by the previous party or client
            n = cnt[p][s]
            v = R.choice([0, max(0, n - 1), n + 1, n + 2, n + 1000, 1, n ^ 1])
            rules = put('b', 0, v)
        elif kind == 'wrap':        # together with the noise it exceeds 32 bits
            if not noise or p == P - 1:
                p, c0 = 0, 3
                sp.c = 3
                sp.eps, sp.delta = deploy.eps_delta_for(3, R)
                noise = max(0, min(sp.D, (s + 1) * step) - s * step) * 3
                name = 'p%ds%d' % (p, s)
            if not noise:
                continue
            v = 2**32 - R.randrange(1, noise + 1)
            rules = put('b', 0, v)
        elif kind == 'sib':         # the size of a sibling's batch
            # a server accepts from lower ids, whose identity byte comes first
            off = 1 if s > 0 else 0
            own = cnt[p][s] + noise
            v = R.choice([0, 1, 2**32 - 1, 2**32 - own, 2**32 - own + 1, max(0, 2**32 - own - 1), own + 7, R.randrange(200)])
            if v > 2**22 and v + own < 2**32:
                v = 2**32 - own if own else 3
            rules = put('s', off, v & 0xffffffff)
        elif kind == 'noise':       # how much of what a sibling sends is noise
            off = (1 if s > 0 else 0) + 4
            if stage != 'online':
                off += 2 if i % 2 else 0
            own = cnt[p][s] + noise
            v = R.choice([0, 1, own, own * S + 1, 2**32 - 1, 2**31, R.randrange(2 * own + 2), 10**6])
            rules = put('s', off, v)
        else:
            s = R.randrange(1, S)
            name = 'p%ds%d' % (p, s)
            rules = put('s', 0, R.choice([s, s - 1, s + 1, S - 1, S, S + 1, 255, 254, 200, 128, 64, 16]), 1)
        sp.penv = {name: {'VSHIM_RULES': ';'.join(rules)}}
        specs.append(sp)
    return specs


# --------------------------------------------------------------------------
def c14(ctx):
    common(ctx, 'hostile clients speaking the protocol with chosen tags, shares, tallies, rows, repeated or broken ciphertexts, and random '
                'byte corruption on every kind of link, against ASan/UBSan builds; non-trivial: the corruption was delivered; distinct: by spec')
    k = ctx.seed
    specs = []
    modes = [['unknown'], ['rows'], ['tally'], ['tags'], ['chain'], ['dup'], ['shares'], ['garbage'], ['cipher'], ['repeat'],
             ['tags', 'unknown'], ['shares', 'tally'], ['dup', 'repeat'], ['chain', 'rows'], ['tags', 'shares', 'tally', 'unknown'], []]
    for i in range(ctx.n(150, 1000)):
        R = random.Random('c14h/%d/%d' % (k, i))
        S = [1, 1, 2, 3][(i // 16) % 4]
        P = R.choice([2, 2, 3])
        h = R.randrange(S)
        stage = R.choice(['all', 'all', 'all', 'online', 'offline'])
        m = modes[i % 16]
        if stage == 'online' and not set(m) & {'unknown', 'rows', 'tally'}:
            stage = 'all'
        specs.append(Spec(P=P, S=S, D=R.randrange(S, 40 + S), c=R.choice([None, 0, 1, 2]), N=[R.randrange(1, 25) for _ in range(S)], stage=stage,
                          seed=hash_int('c14h/%d/%d' % (k, i)), expect='faulty', variant='sample' if i % 9 == 8 else 'san', noise_mode='sample' if i % 9 == 8 else 'fixed',
                          hostile={h: {'seed': i + 1, 'modes': m}}, tag='hostile'))
    for i in range(ctx.n(170, 1300)):
        R = random.Random('c14t/%d/%d' % (k, i))
        S = R.choice([1, 1, 2, 2, 3])
        P = R.choice([2, 3, 4])
        stage = R.choice(['all', 'all', 'online', 'offline'])
        sp = Spec(P=P, S=S, D=R.randrange(S, 40 + S), c=R.choice([None, 0, 1, 2]), N=[R.randrange(1, 20) for _ in range(S)], stage=stage,
                  seed=hash_int('c14t/%d/%d' % (k, i)), expect='faulty', tag='tamper')
        cnt = link_counts(sp)
        p, s = R.randrange(-1, P), R.randrange(S)
        rules = []
        bits = lambda: R.choice([1, 2, 4, 0x80, 0xff, R.randrange(1, 256)])
        rd = 1 if stage == 'online' else 2
        kind = R.choice(['up', 'up', 'down', 'sib']) if p >= 0 else 'down'
        if kind == 'sib' and S == 1:
            kind = 'up'
        if kind == 'up':
            n = cnt[p][s]
            cb = n * 124 * (P - p) if stage != 'online' else 0
            qb = n * 12 if stage != 'offline' else 0
            where = R.choice(['c', 'q', 'q']) if cb and qb else 'c' if cb else 'q'
            for _ in range(R.choice([1, 1, 3, 8])):
                if where == 'c' and cb:
                    off = 4 + R.randrange(cb)
                elif qb:
                    rec = R.randrange(n)
                    off = 4 + cb + 12 * rec + R.choice([0, 1, 4, 7, 8, 9, 10, 11])
                else:
                    continue
                rules.append('t,b,r,%d,%d' % (off, bits()))
            name = 'p%ds%d' % (p, s)
        elif kind == 'down':
            # replies as read by a party or client from its next
            n = cnt[p + 1][s] if p + 1 < P else 0
            if n and stage != 'offline':
                for _ in range(R.choice([1, 1, 4])):
                    rules.append('t,n,r,%d,%d' % (rd + R.randrange(52 * n), bits()))
            else:
                rules.append('t,n,r,%d,%d' % (R.randrange(rd), bits()))
            name = 'p%ds%d' % (p, s) if p >= 0 else 'c%d' % s
        else:
            # messages exchanged among siblings, behind the counts
            for _ in range(R.choice([1, 1, 3])):
                rules.append('t,s,r,%d,%d' % (R.randrange(40, 3000), bits()))
            name = 'p%ds%d' % (p, s)
        if not rules:
            continue
        sp.penv = {name: {'VSHIM_RULES': ';'.join(rules)}}
        specs.append(sp)

    specs += hostile_counts(ctx, k)

    def judge(r):
        out = []
        for n, e in r.err.items():
            rep = san_report(r.rc.get(n), e) if n not in r.killed or 'Sanitizer' in e or 'runtime error' in e else None
            if rep:
                out.append('%s: %s' % (n, rep))
        out += ['%s: %s' % v for v in r.viol if v[0] == 'RET']
        with ctx.lock:
            for n, c in r.rc.items():
                ctx.stats['stopped' if c else 'carried_on'] += 1
            if r.hang:
                ctx.stats['left_waiting'] += 1
        return out
    ctx.deploys(specs, None, judge=judge, workers=8, key=lambda r: json.dumps(r.spec.brief(), sort_keys=True))


def c15(ctx):
    common(ctx, 'for random deployments one process is killed (or one connection shut down) at an exact byte of one of its connections - '
                'record boundaries, mid-record, first and last byte of each phase, either direction, siblings included; survivors must all end and none may report an incomplete success; '
                'non-trivial: the fault fired; distinct: by spec and fault position')
    k = ctx.seed
    specs = []
    for i in range(ctx.n(500, 3000)):
        R = random.Random('c15/%d/%d' % (k, i))
        S = [1, 1, 2, 2, 3][i % 5]
        P = R.choice([2, 2, 3, 4])
        stage = R.choice(['all', 'all', 'online', 'offline'])
        big = i % 12 == 7
        sp = Spec(P=P, S=S, D=R.randrange(S, 20 + S), c=R.choice([None, 0, 1]), N=[R.randrange(1, 25) if not big else R.randrange(300, 900) for _ in range(S)], stage=stage,
                  seed=hash_int('c15/%d/%d' % (k, i)), expect='faulty', order=R.choice(['rev', 'rand']), tag='kill')
        cnt = link_counts(sp)
        rd = 1 if stage == 'online' else 2
        p, s = R.randrange(-1, P), R.randrange(S)
        pts = []

        def phase(role, d, start, rec, n):
            if n:
                j = R.randrange(n)
                for o in (0, rec * n - 1, rec * j, rec * j + R.randrange(1, rec), rec * n):
                    pts.append((role, d, start + o))
        for link, role, up, down in ((p, 'b', 'r', 'w'), (p + 1, 'n', 'w', 'r')):
            if not 0 <= link < P:
                continue
            n = cnt[link][s]
            cb = n * 124 * (P - link) if stage != 'online' else 0
            if stage != 'online':
                phase(role, up, 4, 124 * (P - link), n)
            if stage != 'offline':
                phase(role, up, 4 + cb, 12, n)
                phase(role, down, rd, 52, n)
            if rd == 2 and n:
                pts.append((role, down, 1))
        if S > 1 and p >= 0:
            for _ in range(4):
                pts.append(('s', R.choice('rw'), R.choice([R.randrange(14, 60), R.randrange(14, 2500)])))
        if not pts:
            continue
        role, d, off = R.choice(pts)
        name = 'p%ds%d' % (p, s) if p >= 0 else 'c%d' % s
        sp.penv = {name: {'VSHIM_RULES': '%s,%s,%s,%d,0' % ('x' if i % 6 == 5 else 'k', role, d, off)}}
        if R.random() < .3:
            sp.env = {'VSHIM_RSEG': R.choice(['mix', 'rand:64', 'tail:3'])}
        if R.random() < .25:
            sp.env['VSHIM_POLLHIDE'] = '300'
        specs.append(sp)

    def judge(r):
        out = []
        victim = list(r.spec.penv)[0]
        if r.hang:
            out.append('after %s fails, the others do not end: %s' % (victim, r.hang))
        for n, c in r.rc.items():
            if c == 97:
                out.append('after %s fails, %s spins on the closed connection' % (victim, n))
            rep = san_report(c, r.err.get(n, '')) if n not in r.killed else None
            if rep:
                out.append('%s: %s' % (n, rep))
        out += ['%s: %s' % v for v in r.viol if v[0] == 'RET']
        with ctx.lock:
            ctx.stats['survivors_ended'] += len([n for n in r.rc if n not in r.killed])
            ctx.stats['faults_fired'] += int(any(c != 0 for c in r.rc.values()))
        return out
    ctx.deploys(specs, None, judge=judge, workers=8, nontrivial=lambda r: any(c != 0 for c in r.rc.values()),
                key=lambda r: json.dumps(r.spec.brief(), sort_keys=True))


def c16(ctx):
    common(ctx, 'benign deployments with every start order of small systems, delayed and staggered starts, stalled readers and writers, and '
                'batches several times larger than the kernel buffers among up to 6 servers, default-sized (212992) or enlarged buffers; a run is stuck when no byte moves, '
                'no CPU is used and no process is runnable for 10 s; non-trivial: at least one message travelled')
    k = ctx.seed
    specs = []
    # start orders
    for i, perm in enumerate(itertools.permutations(['p0s0', 'p1s0', 'c0'])):
        specs.append(Spec(P=2, S=1, D=9, c=1, N=7, stage=['all', 'online', 'offline'][i % 3], seed=hash_int('c16o/%d/%d' % (k, i)),
                          delay_start={n: 0.12 * j for j, n in enumerate(perm) if j}, order='fwd', tag='order'))
    for i in range(ctx.n(64, 500)):
        R = random.Random('c16s/%d/%d' % (k, i))
        S, P = R.choice([1, 2, 2, 3, 4]), R.choice([2, 3, 4])
        sp = Spec(P=P, S=S, D=R.randrange(S, 30 + S), c=R.choice([None, 1, 2]), N=[R.randrange(0, 40) for _ in range(S)], stage=R.choice(['all', 'all', 'online', 'offline']),
                  seed=hash_int('c16s/%d/%d' % (k, i)), order='rand', stagger=R.choice([0, 0.01, 0.03]), tag='start')
        sp.delay_start = {n: R.choice([0.1, 0.3, 0.7]) for n in R.sample(sp.names(), R.randrange(0, 3))}
        specs.append(sp)
    # long waits: start delays and stalls of minutes, on a clock that runs faster
    for i in range(ctx.n(30, 200)):
        R = random.Random('c16p/%d/%d' % (k, i))
        S, P = R.choice([1, 2, 3]), R.choice([2, 3])
        sp = Spec(P=P, S=S, D=R.randrange(S, 10 + S), c=R.choice([None, 1]), N=[R.randrange(1, 9) for _ in range(S)], stage=R.choice(['all', 'all', 'online', 'offline']),
                  seed=hash_int('c16p/%d/%d' % (k, i)), order='rand', env={'VSHIM_HASTE': '500', 'VSHIM_SLEEPUS': '400'}, tag='patience')
        if i % 2:
            sp.delay_start = {n: R.choice([1.5, 2.5]) for n in R.sample(sp.names(), R.choice([1, 1, 2]))}
        else:
            n = R.choice(sp.names())
            role = 'n' if n[0] == 'c' else R.choice(['b', 's'] if n.startswith('p%d' % (P - 1)) else ['b', 'n', 's'])
            sp.penv = {n: {'VSHIM_RULES': 'd,%s,%s,%d,1500000' % (role, R.choice('rw'), R.choice([0, 1, 4, 5, 9, 200]))}}
        specs.append(sp)
    # runs that follow each other at once on the same ports, as experiments do
    for i, sp in enumerate(smalls('c16r', k, ctx.n(10, 60))):
        sp.rounds, sp.tag = 2 + i % 2, 'again'
        specs.append(sp)
    specs += smalls('c16', k, ctx.n(40, 300)) + smalls('c16s', k, ctx.n(12, 100), variant='sample')
    specs += giants('c16', k, ctx.n((0, 1), (0, 1) * 6 + (2,)))
    specs += boundaries('c16', k, ctx.n(8, 60))

    def judge(r):
        out = ctx.judge_benign(r, set())
        if not out and r.spec.env.get('VSHIM_BUFCLAMP'):
            for n in r.rc:
                if n not in r.killed and not re.search('warning', r.out.get(n, '') + r.err.get(n, ''), re.I):
                    out.append('%s gets smaller socket buffers than it wants and gives no warning' % n)
            with ctx.lock:
                ctx.stats['warnings_due'] += len(r.rc)
        return out
    ctx.deploys(specs, set(), workers=8, judge=judge, nontrivial=moved)
    if ctx.viol:
        return
    big = []
    for i in range(ctx.n(14, 60)):
        R = random.Random('c16b/%d/%d' % (k, i))
        S = [2, 3, 4, 2, 6, 1, 3][i % 7]
        env = {'VSHIM_BUFCLAMP': '212992'} if i % 2 == 0 else {}
        if i % 3 == 2:      # offline volume: ciphers and broadcast secrets
            n = R.choice([4000, 7000]) * 2 // S
            N = [n] * S
            if i % 2:
                N = [0] * S
                N[R.randrange(S)] = n * 2
            big.append(Spec(P=R.choice([2, 3]), S=S, D=20 + S, c=R.choice([0, 2]), N=N, stage=R.choice(['all', 'offline']), seed=hash_int('c16b/%d/%d' % (k, i)), variant='opt', env=env, tag='big'))
        else:
            n = R.choice([30000, 60000, 90000]) if S < 4 else 40000
            N = [n] * S
            if i % 4 == 3:
                N = [0] * S
                N[R.randrange(S)] = n * 2
            big.append(Spec(P=R.choice([2, 3]), S=S, D=R.choice([1000, 20000]), c=R.choice([0, 1]), N=N, stage='online', seed=hash_int('c16b/%d/%d' % (k, i)), variant='opt', env=env, tag='big'))
        if i % 5 == 4:
            sp = big[-1]
            v = R.choice([n for n in sp.names()])
            role = R.choice(['b', 's']) if v[0] == 'p' else 'n'
            sp.penv = {v: {'VSHIM_RULES': 'd,%s,%s,%d,1500000' % (role, R.choice('rw'), R.choice([5000, 200000]))}}
    ctx.deploys(big, set(), workers=3, nontrivial=moved)


def c17(ctx):
    common(ctx, 'random, boundary-sized, wide and sampled deployments under AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ '
                'assertions, small deployments of the unoptimised and the optimised binary under memcheck (uninitialised bytes that influence control flow or reach a socket), '
                'and the in-process monitors of all libraries; non-trivial: at least one message travelled')
    k = ctx.seed
    specs = giants('c17', k, ctx.n((0, 1), (0, 1) * 8), variants=('san',)) + smalls('c17', k, ctx.n(80, 600)) + boundaries('c17', k, ctx.n(24, 160)) + wides('c17', k, ctx.n(16, 80)) + smalls('c17s', k, ctx.n(30, 200), variant='sample')
    ctx.deploys(specs, set(), nontrivial=moved)
    if ctx.viol:
        return
    for name, variant, args in (('u_config', 'san', [k, .4, ctx.workdir]), ('u_shuffle', 'san', ['biject', k, .4]), ('u_noise', 'san', ['range', k, .3]),
                                ('u_sharing', 'san', ['incremental', k, .3]), ('u_sharing', 'san', ['additive', k, .3]), ('u_onion', 'san', [k, .3]),
                                ('u_batch', 'san', ['batch', k, .5]), ('u_batch', 'san', ['stream', k, .5]), ('u_batch', 'opt', ['huge', k, 1])):
        before = len(ctx.viol)
        ctx.unit(name, variant, args)
        # only memory reports count here
        ctx.viol[before:] = [v for v in ctx.viol[before:] if 'stderr' in v[1] and 'message' not in v[1]]
    vg = ['valgrind', '-q', '--error-exitcode=95', '--track-origins=no', '--undef-value-errors=yes', '--leak-check=no', '--exit-on-first-error=yes']
    mem = []
    for i in range(ctx.n(14, 80)):
        R = random.Random('c17v/%d/%d' % (k, i))
        S = [1, 2, 1, 2, 3][i % 5]
        P = [2, 2, 3, 3][i % 4]
        mem.append(Spec(P=P, S=S, D=R.randrange(S, 12 + S), c=R.choice([None, 1, 2]), N=[R.randrange(0, 9) for _ in range(S)], stage=['all', 'all', 'online', 'offline'][i % 4],
                        seed=hash_int('c17v/%d/%d' % (k, i)), rng='seeded', variant='opt' if i % 3 == 2 else 'plain', prefix=vg, tag='memcheck',
                        env={'VSHIM_RSEG': R.choice(['none', 'mix', 'rand:64'])}))

    def judge(r):
        out = ctx.judge_benign(r, set())
        for n, c in r.rc.items():
            if c == 95 or '== ' in r.err.get(n, '') and 'ninitialised' in r.err.get(n, ''):
                l = [x for x in r.err[n].splitlines() if x.startswith('==')]
                out.insert(0, '%s: memcheck: %s' % (n, ' / '.join(x.split('== ', 1)[-1].strip() for x in l[:5])[:400]))
        return out
    ctx.deploys(mem, set(), judge=judge, workers=3, nontrivial=moved)
    ctx.count(memcheck_runs=len(mem))


def c20(ctx):
    common(ctx, 'deployments whose servers have different loopback addresses and unordered ports, under random start orders; every listen, connect '
                '(also failed attempts) and accept of every process is compared with the configuration; malformed addresses must be refused; non-trivial: connections were judged')
    k = ctx.seed
    specs = []
    for i in range(ctx.n(150, 900)):
        R = random.Random('c20/%d/%d' % (k, i))
        S, P = [1, 2, 3, 4, 6][i % 5], R.choice([2, 2, 3, 4])
        pool = ['127.%d.%d.%d' % (R.randrange(256), R.randrange(256), R.randrange(1, 255)) for _ in range(P * S)]
        if i % 4 == 0:
            pool = [R.choice(['127.0.0.1', '127.255.255.254', '127.100.200.100', '127.9.9.9']) for _ in pool]
        sp = Spec(P=P, S=S, D=R.randrange(S, 12 + S), c=R.choice([None, 1]), N=[R.randrange(0, 9) for _ in range(S)], stage=R.choice(['all', 'online', 'offline']),
                  seed=hash_int('c20/%d/%d' % (k, i)), order=R.choice(['rev', 'fwd', 'rand', 'clientfirst']), topo=True,
                  ips=[[pool[p * S + s] for s in range(S)] for p in range(P)])
        if R.random() < .3:
            sp.delay_start = {R.choice(sp.names()): 0.1}
        specs.append(sp)
    for sp in giants('c20', k, ctx.n((0, 1, 2), (0, 1, 0, 1, 2))) + wides('c20', k, 8):
        if sp.tag in ('manyparties', 'manyservers', 'giant'):
            sp.topo = True
            specs.append(sp)
    ctx.deploys(specs, {'TOPO'}, nontrivial=lambda r: r.stats.get('topology_facts', 0) > 0)
    if ctx.viol:
        return
    # malformed addresses
    bins = ctx.bins('san')
    R = random.Random('c20b/%d' % k)
    bad = ['256.1.1.1', '127.0.0', '127.0.0.1.1', 'localhost', '127.0.0.1x', '::1', '127.0.0.-1', '127..0.1', '0x7f.0.0.1', '127.0.0.300', 'a.b.c.d', '127,0,0,1']
    cases = [(ip, role, S) for ip in bad for role, S in (('client', 1), ('party', 1), ('sibling', 2))][:ctx.n(36, 36)]

    def one(ic):
        i, (ip, role, S) = ic
        f = os.path.join(ctx.workdir, 'badip%d' % i)
        sp = Spec(P=2, S=S, D=9, c=1)
        sp.ips = [['127.0.0.1'] * S for _ in range(2)]
        if role == 'client':
            sp.ips[0][0] = ip
        elif role == 'party':
            sp.ips[1][0] = ip
        else:
            sp.ips[1][1] = ip
        lines = '%d %r %r 2 %d\n' % (9, sp.eps, sp.delta, S)
        ports = [[deploy.PORTS.take() for _ in range(S)] for _ in range(2)]
        pports = [[deploy.PORTS.take() for _ in range(S)] for _ in range(2)]
        for p in range(2):
            pk, sk = deploy.keypair(b'q%d' % p)
            lines += '%d %s %s\n' % (p, pk.hex(), sk.hex())
            for s in range(S):
                lines += '%d %d %d %s\n' % (s, ports[p][s], pports[p][s], sp.ips[p][s])
        if bins.get('mkconfig'):
            subprocess.run([bins['mkconfig'], f], input=lines, text=True, capture_output=True, env=dict(os.environ, **SAN_ENV))
        else:
            deploy.write_config(f, sp, [deploy.keypair(b'q%d' % p) for p in range(2)], ports, pports)
        a = ['--config=' + f, '--stage=all', '--server_id=0']
        a += ['--role=client', '--queries=2'] if role == 'client' else ['--role=party', '--party_id=%d' % (0 if role == 'party' else 1)]
        log = f + '.log'
        env = dict(os.environ, VSHIM_LOG=log, VSHIM_SLEEPUS='20000', **SAN_ENV)
        pr = subprocess.Popen([bins['main']] + a, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env)
        try:
            # accept-before-connect processes need their previous peer first
            t0 = time.time()
            socks = []
            while time.time() - t0 < 20 and pr.poll() is None:
                if role != 'client' and not socks:
                    import socket
                    so = socket.socket()
                    try:
                        so.connect(('127.0.0.1', ports[0 if role == 'party' else 1][0]))
                        socks.append(so)
                    except OSError:
                        so.close()
                if os.path.exists(log) and any(e[0] in (2, 14) for e in deploy.net_events(log)):
                    break
                time.sleep(0.03)
            rc = pr.poll()
            net = [e for e in deploy.net_events(log) if e[0] in (2, 14)]
            for so in socks:
                so.close()
        finally:
            if pr.poll() is None:
                pr.kill()
            err = pr.communicate()[1].decode('utf8', 'replace')
        with ctx.lock:
            ctx.evaluations += 1
            ctx.distinct.add(('badip', ip, role))
            ctx.stats['malformed_addresses'] += 1
        if net:
            ctx.violation('%s with address "%s" connects to %s:%d' % (role, ip, net[0][4], net[0][2]), {'kind': 'cmd', 'ip': ip, 'role': role})
        elif rc == 0:
            ctx.violation('%s with address "%s" reports success' % (role, ip), {'kind': 'cmd', 'ip': ip, 'role': role})
        elif san_report(rc, err):
            ctx.violation('%s with address "%s": %s' % (role, ip, san_report(rc, err)), {'kind': 'cmd', 'ip': ip, 'role': role})
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, enumerate(cases)))
