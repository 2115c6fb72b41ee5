"""Runs one deployment of the real binaries (P parties x S servers + S clients)
under the shim, watches it for termination, and hands the recorded traces to
tracecheck."""
import ctypes, json, math, os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

_sod = ctypes.CDLL('libsodium.so.23')
_sod.sodium_init()


def keypair(seed_bytes):
    pk = ctypes.create_string_buffer(32)
    sk = ctypes.create_string_buffer(32)
    seed = (seed_bytes + b'\0' * 32)[:32]
    _sod.crypto_box_seed_keypair(pk, sk, seed)
    return pk.raw, sk.raw


class Ports:
    """Ports below the ephemeral range, handed out once per process."""
    lo, hi = 10100, 32000

    def __init__(self):
        self.lock = threading.Lock()
        self.next = self.lo + (os.getpid() * 7919 + int(time.time())) % (self.hi - self.lo)

    def take(self):
        with self.lock:
            for _ in range(2 * (self.hi - self.lo)):
                p = self.next
                self.next += 1
                if self.next >= self.hi:
                    self.next = self.lo
                s = socket.socket()
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    s.bind(('0.0.0.0', p))
                    return p
                except OSError:
                    continue
                finally:
                    s.close()
        raise RuntimeError('no free port')


PORTS = Ports()
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:'
                    'max_allocation_size_mb=6000:strict_memcmp=0:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
}


def cutoff(eps, delta):
    if eps == 0 or delta == 0:
        return 0.0
    if not (eps > 0 and 0 < delta <= 1):
        return 0.0  # no valid amount: such parameters are refused
    return (2.0 / eps) * math.log(1.0 / delta)


def eps_delta_for(c, rnd):
    """(eps, delta) whose cutoff is safely inside [c, c+1)."""
    if c is None:
        return rnd.choice([(0.0, 0.0), (0.0, 1e-6), (0.1, 0.0)])
    target = c + rnd.choice([0.25, 0.5, 0.75])
    # keeps delta above 1e-9 (1 - delta must be representable)
    eps = rnd.choice([x for x in (0.5, 1.0, 2.0, 4.0) if x * target <= 40] or [30.0 / target])
    return eps, math.exp(-target * eps / 2.0)


class Spec:
    """Everything that determines a deployment."""

    def __init__(self, **k):
        self.P, self.S, self.D = 2, 1, 10
        self.c = None               # noise per row (None: switched off)
        self.N = None               # queries per client
        self.stage = 'all'
        self.seed = 1
        self.rng = 'seeded'
        self.variant = 'san'
        self.env = {}               # env for all processes
        self.penv = {}              # env per process name
        self.order = 'rev'          # start order: rev, fwd, rand
        self.stagger = 0.0
        self.eps = self.delta = None
        self.noise_mode = 'fixed'
        self.expect = 'complete'    # complete | faulty
        self.prefix = []            # command prefix (valgrind)
        self.local_seeds = None
        self.shared_seeds = None
        self.ip = '127.0.0.1'
        self.ips = None             # address per party and server
        self.given = None           # existing configuration: path, ports, pports, keys
        self.hostile = {}           # client index -> parameters of a hostile client
        self.topo = False           # judge who connected to whom
        self.delay_start = {}       # process name -> seconds
        self.rounds = 1             # runs one after another on the same ports
        self.tag = ''
        for a, b in k.items():
            if not hasattr(self, a):
                raise AttributeError(a)
            setattr(self, a, b)
        rnd = random.Random('spec%d' % self.seed)
        if self.N is None:
            self.N = [5] * self.S
        if isinstance(self.N, int):
            self.N = [self.N] * self.S
        if self.eps is None:
            self.eps, self.delta = eps_delta_for(self.c, rnd)
        if self.local_seeds is None:
            self.local_seeds = [[rnd.randrange(0, 2**31 - 1) for _ in range(self.S)] for _ in range(self.P)]
        if self.shared_seeds is None:
            self.shared_seeds = [rnd.randrange(0, 2**31 - 1) for _ in range(self.P)]

    def brief(self):
        d = {'P': self.P, 'S': self.S, 'D': self.D, 'c': self.c, 'N': self.N, 'stage': self.stage,
             'seed': self.seed, 'rng': self.rng, 'variant': self.variant, 'order': self.order,
             'eps': self.eps, 'delta': self.delta}
        if self.env:
            d['env'] = self.env
        if self.penv:
            d['penv'] = self.penv
        if self.hostile:
            d['hostile'] = self.hostile
        if self.ips:
            d['ips'] = self.ips
        if self.delay_start:
            d['delay_start'] = self.delay_start
        if self.rounds > 1:
            d['rounds'] = self.rounds
        if self.tag:
            d['tag'] = self.tag
        return d

    FIELDS = ('P', 'S', 'D', 'c', 'N', 'stage', 'seed', 'rng', 'variant', 'env', 'penv', 'order',
              'stagger', 'eps', 'delta', 'noise_mode', 'expect', 'prefix', 'local_seeds',
              'shared_seeds', 'ip', 'ips', 'given', 'hostile', 'topo', 'delay_start', 'rounds', 'tag')

    def dump(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    def kills(self):
        return any('k,' in v for d in [self.env] + list(self.penv.values())
                   for k, v in d.items() if k == 'VSHIM_RULES')

    def addr(self, p, s):
        return self.ips[p][s] if self.ips else self.ip

    def names(self):
        return ['p%ds%d' % (p, s) for p in range(self.P) for s in range(self.S)] + \
               ['c%d' % s for s in range(self.S)]


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.rc = {}
        self.err = {}
        self.out = {}
        self.hang = None        # description when stuck
        self.inconclusive = None
        self.viol = []          # (category, message)
        self.stats = {}
        self.fingerprint = None
        self.noise = []
        self.times = []         # bounds on the times each party may report
        self.secrets = {}
        self.announced = {}     # process -> count it sent to its next
        self.wall = 0
        self.killed = set()
        self.dir = None

    def ok(self):
        return not self.hang and not self.inconclusive and all(v == 0 for v in self.rc.values())

    def sanitizer(self):
        """processes that died with a memory/UB report"""
        bad = []
        for n, e in self.err.items():
            if 'AddressSanitizer' in e or 'runtime error:' in e or 'UndefinedBehaviorSanitizer' in e:
                bad.append((n, first_report(e)))
            elif self.rc.get(n) in (-11, -7, -4, -8) and n not in self.killed:
                bad.append((n, 'signal %d' % -self.rc[n]))
        return bad


def first_report(e):
    for l in e.splitlines():
        if 'runtime error:' in l or 'ERROR: AddressSanitizer' in l:
            return l.strip()[:300]
    return e[:300]


def _stat(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read()
        r = s[s.rindex(')') + 2:].split()
        return r[0], int(r[11]) + int(r[12])
    except (OSError, ValueError, IndexError):
        return 'X', 0


def write_config(path, spec, keys, ports, pports):
    """the configuration file layout, encoded without the tree's code"""
    d = struct.pack('<Iddii', spec.D, spec.eps, spec.delta, spec.P, spec.S)
    for p in range(spec.P):
        d += struct.pack('<i', spec.shared_seeds[p]) + keys[p][0] + keys[p][1]
        for s in range(spec.S):
            d += struct.pack('<iii', spec.local_seeds[p][s], ports[p][s], pports[p][s]) + spec.addr(p, s).encode() + b'\0'
    with open(path, 'wb') as f:
        f.write(d)


REC = struct.Struct('<BBHIQQII')


def net_events(path):
    """(type, role, a, b, payload) of the connection events of one process"""
    out = []
    with open(path, 'rb') as f:
        d = f.read()
    i = 0
    while i + REC.size <= len(d):
        ty, role, conn, n, t0, t1, a, b = REC.unpack_from(d, i)
        i += REC.size
        if ty in (2, 3, 10, 14):
            out.append((ty, chr(role), a, b, d[i:i + n].decode('latin1')))
        i += n
    return out


def announced(path):
    """the count a process announced to its next, if it got that far"""
    if os.path.getsize(path) > 4 << 20:
        return None
    with open(path, 'rb') as f:
        d = f.read()
    i, out = 0, b''
    while i + REC.size <= len(d) and len(out) < 4:
        ty, role, conn, n, t0, t1, a, b = REC.unpack_from(d, i)
        i += REC.size
        if ty == 5 and chr(role) == 'n':
            out += d[i:i + n]
        i += n
    return struct.unpack('<I', out[:4])[0] if len(out) >= 4 else None


def topology(spec, wd, ports, pports, stats):
    """who connected to whom, compared with the configuration"""
    v = []
    P, S = spec.P, spec.S
    pairs = {}
    for n in spec.names():
        ev = net_events(os.path.join(wd, n + '.log'))
        if n[0] == 'c':
            p, s = -1, int(n[1:])
            own = {}
        else:
            p, s = map(int, n[1:].split('s'))
            own = {ports[p][s]: 'back', pports[p][s]: 'sibling'}
        want = {}
        if p + 1 < P:
            want[(spec.addr(p + 1, s), ports[p + 1][s])] = 'next'
        if p >= 0:
            for t in range(S):
                if t != s:
                    want[(spec.addr(p, t), pports[p][t])] = t
        made = []
        for ty, role, a, b, ip in ev:
            if ty in (2, 14) and (ip, a) not in want:
                v.append(('TOPO', '%s connects to %s:%d, which its configuration does not name' % (n, ip, a)))
            if ty == 2:
                made.append(want.get((ip, a)))
            if ty == 10 and a not in own:
                v.append(('TOPO', '%s listens on port %d, which is not its own' % (n, a)))
        stats['topology_facts'] = stats.get('topology_facts', 0) + len(ev)
        if p + 1 < P and made.count('next') != 1:
            v.append(('TOPO', '%s connects %d times to the next party' % (n, made.count('next'))))
        acc = [own.get(a) for ty, role, a, b, ip in ev if ty == 3]
        if p >= 0 and acc.count('back') != 1:
            v.append(('TOPO', '%s accepts %d connections from the previous party' % (n, acc.count('back'))))
        for t in made:
            if isinstance(t, int):
                pairs[(p, min(s, t), max(s, t))] = pairs.get((p, min(s, t), max(s, t)), 0) + 1
        if p >= 0:
            k = acc.count('sibling') + sum(1 for t in made if isinstance(t, int))
            if k != S - 1:
                v.append(('TOPO', '%s has %d sibling connections instead of %d' % (n, k, S - 1)))
    for k, c in pairs.items():
        if c != 1:
            v.append(('TOPO', 'servers %d and %d of party %d connect %d times' % (k[1], k[2], k[0], c)))
    return v


TICK = os.sysconf('SC_CLK_TCK')
STUCK_SAMPLES = 40      # x 0.25 s without progress, CPU or runnable process
LIVELOCK_CPU_S = 45.0   # CPU seconds burnt by one process without any event
WATCHDOG_S = 420.0


def run(spec, bins, tool, keep=False, workroot=None):
    """one deployment; returns Result"""
    if spec.S > 30:
        with BIG:       # these need gigabytes
            return run1(spec, bins, tool, keep, workroot)
    return run1(spec, bins, tool, keep, workroot)


BIG = threading.Lock()


def run1(spec, bins, tool, keep=False, workroot=None):
    for attempt in range(4):
        r = _run(spec, bins, tool, keep, workroot)
        # the same system again, at once, on the same ports
        for _ in range(spec.rounds - 1):
            if not r.ok() or r.viol:
                break
            fixed = r.ports
            if r.dir:
                shutil.rmtree(r.dir, ignore_errors=True)
            r = _run(spec, bins, tool, keep, workroot, fixed)
        # an address already in use is the sandbox's fault, not the tree's
        if any('Address already in use' in e for e in r.err.values()) and attempt < 3:
            if r.dir:
                shutil.rmtree(r.dir, ignore_errors=True)
            continue
        return r
    return r


def _run(spec, bins, tool, keep, workroot, fixed=None):
    res = Result(spec)
    t_begin = time.time()
    wd = tempfile.mkdtemp(prefix='dppirverif.', dir=workroot)
    res.dir = wd
    try:
        P, S = spec.P, spec.S
        if spec.given:
            ports, pports = spec.given['ports'], spec.given['pports']
            keys = [(bytes.fromhex(a), bytes.fromhex(b)) for a, b in spec.given['keys']]
        else:
            ports = fixed[0] if fixed else [[PORTS.take() for _ in range(S)] for _ in range(P)]
            pports = fixed[1] if fixed else [[PORTS.take() for _ in range(S)] for _ in range(P)]
            keys = [keypair(b'k%d-%d' % (spec.seed, p)) for p in range(P)]
            if spec.topo and not fixed:       # ports in no particular order
                flat = [x for r in ports + pports for x in r]
                random.Random(spec.seed).shuffle(flat)
                ports = [[flat.pop() for _ in range(S)] for _ in range(P)]
                pports = [[flat.pop() for _ in range(S)] for _ in range(P)]
        res.ports = (ports, pports)
        lines = ['%d %r %r %d %d' % (spec.D, spec.eps, spec.delta, P, S)]
        for p in range(P):
            lines.append('%d %s %s' % (spec.shared_seeds[p], keys[p][0].hex(), keys[p][1].hex()))
            for s in range(S):
                lines.append('%d %d %d %s' % (spec.local_seeds[p][s], ports[p][s], pports[p][s], spec.addr(p, s)))
        cfg = os.path.join(wd, 'config')
        if spec.given:
            cfg = spec.given['path']
            mk = None
        elif bins.get('mkconfig') is None:
            write_config(cfg, spec, keys, ports, pports)
            mk = None
        else:
          mk = subprocess.run([bins['mkconfig'], cfg], input='\n'.join(lines) + '\n', text=True,
                            capture_output=True, env=dict(os.environ, **SAN_ENV))
        if mk and mk.returncode != 0 or not os.path.exists(cfg):
            res.hang = None
            res.rc['mkconfig'] = (mk and mk.returncode) or 1
            res.err['mkconfig'] = mk.stderr[-2000:] if mk else ''
            return res
        names = spec.names()
        order = list(names)
        if spec.order == 'rev':
            order = order[:P * S][::-1] + order[P * S:]
        elif spec.order == 'rand':
            random.Random(spec.seed).shuffle(order)
        elif spec.order == 'clientfirst':
            order = order[P * S:] + order[:P * S]
        procs = {}
        t_start = time.time()
        pending = []
        for n in order:
            env = dict(os.environ)
            env.update(SAN_ENV)
            env.update({'VSHIM_LOG': os.path.join(wd, n + '.log'), 'VSHIM_SLEEPUS': '3000',
                        'VSHIM_RNG': spec.rng,
                        'VSHIM_SEED': str(spec.seed * 1009 + names.index(n) + 1)})
            if n[0] == 'c':
                s = int(n[1:])
                env['VSHIM_NEXT'] = str(ports[0][s])
                args = ['--role=client', '--server_id=%d' % s, '--queries=%d' % spec.N[s]]
            else:
                p, s = map(int, n[1:].split('s'))
                env['VSHIM_BACK'] = str(ports[p][s])
                env['VSHIM_PAR'] = str(pports[p][s])
                if p + 1 < P:
                    env['VSHIM_NEXT'] = str(ports[p + 1][s])
                args = ['--role=party', '--party_id=%d' % p, '--server_id=%d' % s]
            env.update(spec.env)
            env.update(spec.penv.get(n, {}))
            pending.append((spec.delay_start.get(n, 0.0), n, args, env))
            open(os.path.join(wd, n + '.log'), 'wb').close()

        def launch(n, args, env):
            cmd = spec.prefix + [bins['main'], '--config=' + cfg, '--stage=' + spec.stage] + args
            if n[0] == 'c' and int(n[1:]) in spec.hostile:
                cmd = [sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hostile.py'),
                       json.dumps({'port': ports[0][int(n[1:])], 'P': P, 'D': spec.D, 'stage': spec.stage,
                                   'N': spec.N[int(n[1:])], 's': int(n[1:]), 'pks': [k[0].hex() for k in keys],
                                   **spec.hostile[int(n[1:])]})]
            o = open(os.path.join(wd, n + '.out'), 'wb')
            e = open(os.path.join(wd, n + '.err'), 'wb')
            procs[n] = subprocess.Popen(cmd, stdout=o, stderr=e, env=env, cwd=wd, start_new_session=True,
                                        stdin=subprocess.DEVNULL)
            o.close(); e.close()

        later = [x for x in pending if x[0] > 0]
        for d, n, args, env in pending:
            if d > 0:
                continue
            launch(n, args, env)
            if spec.stagger:
                time.sleep(spec.stagger)
        last_size = -1
        idle = 0
        cpu_mark = {}
        last_cpu = {}
        next_sample = time.time() + 0.25
        first_bad = None
        while True:
            if later:
                now = time.time() - t_start
                for x in [x for x in later if x[0] <= now]:
                    launch(*x[1:])
                    later.remove(x)
            alive = [n for n, p in procs.items() if p.poll() is None]
            if not alive and not later:
                break
            bad = [n for n, p in procs.items() if p.returncode not in (None, 0)]
            now = time.time()
            if bad and spec.expect == 'complete':
                # a benign deployment whose process died cannot complete
                if first_bad is None:
                    first_bad = now
                if now - first_bad > 2.0:
                    break
            if now >= next_sample:
                next_sample = now + 0.25
                size = 0
                for n in names:
                    try:
                        size += os.path.getsize(os.path.join(wd, n + '.log'))
                    except OSError:
                        pass
                active = bool(later)
                tot = 0.0
                for n in alive:
                    st, ticks = _stat(procs[n].pid)
                    d = ticks - last_cpu.get(n, 0)
                    last_cpu[n] = ticks
                    tot += d / TICK
                    if st in 'RD':
                        active = True
                    if size != last_size:
                        cpu_mark[n] = ticks
                    elif (ticks - cpu_mark.get(n, 0)) / TICK > LIVELOCK_CPU_S * (20 if spec.prefix or spec.tag == 'heavy' else 1):
                        res.hang = 'process %s burns CPU without moving a byte' % n
                if tot > 0.08:
                    active = True
                if size != last_size or active:
                    idle = 0
                else:
                    idle += 1
                last_size = size
                if idle >= STUCK_SAMPLES:
                    res.hang = 'stuck: %s blocked, no byte moves' % ','.join(alive)
                if res.hang:
                    break
            if now - t_start > WATCHDOG_S:
                res.inconclusive = 'watchdog'
                break
            time.sleep(0.004 if now - t_start < 2 else 0.02)
        for n, p in procs.items():
            if p.poll() is None:
                res.killed.add(n)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        for n, p in procs.items():
            res.rc[n] = p.returncode
            for k, d in (('err', res.err), ('out', res.out)):
                with open(os.path.join(wd, n + '.' + k), 'rb') as f:
                    t = f.read(200000)
                d[n] = t.decode('utf8', 'replace')
        if spec.tag == 'toomuch':
            res.announced = {n: announced(os.path.join(wd, n + '.log')) for n in names}
        full = res.ok() and spec.expect == 'complete'
        if full or spec.expect == 'faulty':
            maxn = int(math.floor(2 * cutoff(spec.eps, spec.delta) + 1e-6))
            sp = os.path.join(wd, 'spec')
            with open(sp, 'w') as f:
                f.write('%d %d %d %d %s %s %s %s %d %s\n' % (
                    P, S, spec.D, int(math.floor(cutoff(spec.eps, spec.delta))), spec.stage, spec.rng,
                    'full' if full else 'client', spec.noise_mode, maxn, wd))
                f.write(' '.join(map(str, spec.N)) + '\n')
                f.write(' '.join('1' if res.rc.get('c%d' % s) == 0 and s not in spec.hostile else '0' for s in range(S)) + '\n')
                f.write(' '.join('1' if res.rc.get('p%ds%d' % (p, s)) == 0 else '0'
                                 for p in range(P) for s in range(S)) + '\n')
                for pkb, skb in keys:
                    f.write(pkb.hex() + ' ' + skb.hex() + '\n')
            t = subprocess.run([tool, sp], capture_output=True, text=True)
            if t.returncode != 0:
                raise RuntimeError('tracecheck failed: %d %s' % (t.returncode, t.stderr[-500:]))
            j = json.loads(t.stdout)
            res.viol = [tuple(x) for x in j['viol']]
            res.stats = j['stats']
            res.fingerprint = j['fingerprint']
            res.noise = j.get('noise') or []
            res.times = j.get('times') or []
            res.secrets = j.get('secrets') or {}
        if spec.topo and full:
            res.viol += topology(spec, wd, ports, pports, res.stats)
        return res
    finally:
        res.wall = time.time() - t_begin
        if not keep:
            shutil.rmtree(wd, ignore_errors=True)
            res.dir = None
