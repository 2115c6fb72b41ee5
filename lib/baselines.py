"""C25: the baseline drivers (experiments/sealpir/main.cc, experiments/checklist/main.go) built from the
tree against stand-ins for SEAL/SealPIR and Checklist that record every call. SealPIR runs on a virtual
clock that only the stand-in advances, so the times it reports are known exactly."""
import json, os, random, re, shutil, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import build, fw

SRC = os.path.join(build.VERIF, 'src', 'baselines')
FOREIGN = re.compile(r'undefined: (driver|pir|updatable)\.|undefined \(type [^)]*(driver|pir|updatable)\.|has no (member|field or method)|'
                     r'is not a member of .(seal|std)|too (many|few) arguments')
BAZEL = '''#!/bin/bash
# stand-in for bazel: records where and how it was called, then runs the driver
{ printf '%s' "$PWD"; printf '\\t%s' "$@"; echo; } >> "$VB_CALLS"
t=""
while [ $# -gt 0 ]; do
  case "$1" in --) shift; break;; *main) t="$VB_CHECKLIST";; *sealpir) t="$VB_SEALPIR";; esac
  shift
done
[ -n "$t" ] && exec "$t" "$@"
exit 0
'''


class Foreign(Exception):
    pass


def compile_all(ctx):
    d = os.path.join(ctx.workdir, 'bl')
    os.makedirs(d + '/go/cmd/main')
    seal, chk = d + '/sealpir', d + '/checklist'
    absl = subprocess.run(['pkg-config', '--libs', 'absl_flags', 'absl_flags_parse', 'absl_flags_usage', 'absl_str_format'],
                          capture_output=True, text=True).stdout.split()
    e = os.path.join(build.REPO, 'experiments')

    def go():
        for n in ('driver', 'pir', 'updatable', 'vb'):
            shutil.copytree(SRC + '/checklist/' + n, d + '/go/' + n)
        shutil.copy(SRC + '/checklist/go.mod', d + '/go/go.mod')
        for f in os.listdir(e + '/checklist'):
            if f.endswith('.go') and not f.endswith('_test.go'):
                shutil.copy(os.path.join(e, 'checklist', f), d + '/go/cmd/main/' + f)
        env = dict(os.environ, GOCACHE=os.path.join(build.OUT, 'gocache'), GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local',
                   CGO_ENABLED='0', GOPATH=d + '/gopath', HOME=d, GOTELEMETRY='off', GONOSUMDB='*', GOSUMDB='off')
        return subprocess.run(['go', 'build', '-o', chk, './cmd/main'], cwd=d + '/go', env=env, capture_output=True, text=True)

    def cc():
        srcs = [os.path.join(e, 'sealpir', f) for f in sorted(os.listdir(e + '/sealpir')) if f.endswith('.cc') and not f.endswith('_test.cc')]
        return subprocess.run(['g++', '-std=c++17', '-w', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I', SRC + '/sealpir',
                               '-I', e + '/sealpir', *srcs, SRC + '/sealpir/stub.cc', '-o', seal, *absl], capture_output=True, text=True)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(go), ex.submit(cc)
        out = {}
        for n, r in (('Checklist', a.result()), ('SealPIR', b.result())):
            if r.returncode != 0:
                t = r.stderr + r.stdout
                if FOREIGN.search(t):
                    ctx.note('the %s driver uses something the stand-in lacks; it was not run: %s' % (n, t[-300:]))
                    continue
                ctx.violation('the %s driver does not build: %s' % (n, t[-400:]), {'kind': 'baseline-build', 'driver': n, 'output': t[-3000:]})
                continue
            out[n] = chk if n == 'Checklist' else seal
    return out


class Box:
    """scratch copy of the launch scripts with a stand-in for bazel"""

    def __init__(self, ctx, name, bins):
        self.d = os.path.join(ctx.workdir, 'box-' + name)
        os.makedirs(self.d + '/bin')
        with build.XLOCK:
            for n in ('checklist', 'sealpir'):
                shutil.copytree(os.path.join(build.REPO, 'experiments', n), self.d + '/experiments/' + n)
            with open(self.d + '/bin/bazel', 'w') as f:
                f.write(BAZEL)
            os.chmod(self.d + '/bin/bazel', 0o755)
        self.log, self.calls = self.d + '/log', self.d + '/calls'
        open(self.log, 'w').close()
        open(self.calls, 'w').close()
        self.env = dict(os.environ, PATH=self.d + '/bin:' + os.environ['PATH'], VB_LOG=self.log, VB_CALLS=self.calls, HOME=self.d,
                        VB_CHECKLIST=bins.get('Checklist', '/bin/true'), VB_SEALPIR=bins.get('SealPIR', '/bin/true'), **fw_env())
        self.p = None

    def start(self, cmd, **env):
        self.p = subprocess.Popen(cmd, cwd=self.d, env=dict(self.env, **env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, start_new_session=True)

    def finish(self, limit=120):
        try:
            o, e = self.p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.communicate()
            return None, '', ''
        return self.p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

    def events(self):
        return [l.split(' ') for l in open(self.log).read().splitlines()]

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def fw_env():
    return {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=97', 'UBSAN_OPTIONS': 'exitcode=97:print_stacktrace=0'}


# -- SealPIR ---------------------------------------------------------------
def seal_case(ctx, bins, seed, rows=None):
    R = random.Random('c25s/%s' % seed)
    T = R.choice([1, 2, 3, 5, 16, 17, 100, 1000, R.randrange(1, 3000)])
    Q = R.choice([1, 2, 7, 30, 499, 500, 501, 1200, R.randrange(1, 400)])
    lo, hi = R.choice([(1, 40), (1, 999), (1000, 1000), (1, 5000), (900, 60000), (500000, 90000000)])
    case = {'table': T, 'queries': Q, 'cost': [lo, hi]}
    b = Box(ctx, 's%s' % str(seed).replace('/', '_'), bins)
    try:
        if R.random() < .5:
            cmd = ['./experiments/sealpir/run.sh', str(T), str(Q)]
        else:
            cmd = [bins['SealPIR'], '--table=%d' % T, '--queries=%d' % Q]
            if R.random() < .5:
                cmd[1:] = cmd[:0:-1]
        b.start(cmd, VB_SEED=str(R.randrange(1, 1 << 30)), VB_LO=str(lo), VB_HI=str(hi))
        rc, out, err = b.finish()
        ev = b.events()
        if rc is None:
            return 'the SealPIR driver does not end', case
        if rc == 97:
            return 'SealPIR driver: memory/UB report: ' + err[-400:], case
        if rc != 0:
            return 'the SealPIR driver fails with %d for %d rows and %d queries: %s' % (rc, T, Q, err[-200:]), case
        cost = {}
        idx = {}
        for i, (what, a, c, us) in enumerate((e[0], int(e[1]), int(e[2]), int(e[3])) for e in ev):
            cost[what] = cost.get(what, 0) + us
            idx.setdefault(what, []).append((i, a, c))
        if 'unready' in idx:
            return 'the SealPIR server answers before its keys and table are prepared', case
        if [x[1:] for x in idx.get('database', [])] != [(T, 8)] or [x[1:] for x in idx.get('pirparams', [])] != [(T, 8)]:
            return 'the SealPIR server holds %s instead of %d rows of 8 bytes' % (idx.get('database'), T), case
        if [x[1] for x in idx.get('preprocess', [])] != [T * 8]:
            return 'the table is preprocessed %d times' % len(idx.get('preprocess', [])), case
        q, r, d = (idx.get(k, []) for k in ('query', 'reply', 'decode'))
        if not len(q) == len(r) == len(d) == Q:
            return 'asked for %d queries, but %d are made, %d answered and %d decoded' % (Q, len(q), len(r), len(d)), case
        per = 16
        dd = {a: (i, c) for i, a, c in d}
        rr = {a: (i, c) for i, a, c in r}
        got = []
        for i, a, fv in q:
            if a not in rr or a not in dd or rr[a][1] != fv or not i < rr[a][0] < dd[a][0]:
                return 'query %d is not answered and decoded once each, in this order' % a, case
            row = fv * per + dd[a][1]
            if row >= T:
                return 'a query asks for row %d of a table of %d rows' % (row, T), case
            got.append(row)
        rows is not None and rows.setdefault(T, []).extend(got)
        want = {'Preprocessing': cost['database'] + cost['preprocess'], 'Query time': cost['query'], 'Server time': cost['reply'],
                'Response handling': cost['decode']}
        for k, us in want.items():
            m = re.findall(r'(?m)^%s: (\S+)ms$' % k, out)
            if m != [str(us // 1000)]:
                return '%s is reported as %s instead of %d ms' % (k, m, us // 1000), case
        ctx.count(sealpir_runs=1, sealpir_queries=Q)
        ctx.seen(('s', T, Q, lo, hi))
        return None, case
    finally:
        b.close()


def seal_refused(ctx, bins):
    for args in ([], ['--table=0', '--queries=5'], ['--table=5'], ['--queries=5'], ['--table=5', '--queries=0']):
        b = Box(ctx, 'sr', bins)
        try:
            b.start([bins['SealPIR'], *args])
            rc, out, err = b.finish()
            if rc == 0 or rc is None or 'Server time' in out or any(e[0] in ('query', 'reply') for e in b.events()):
                ctx.violation('the SealPIR driver called with %r ends with %s' % (args, rc), {'kind': 'baseline', 'args': args})
            ctx.count(refusals=1)
        finally:
            b.close()


def seal_spread(ctx, rows):
    """every row can be asked for, about equally often"""
    for T, g in rows.items():
        n = len(g)
        if T <= 100 and n >= 40 * T:
            miss = [r for r in range(T) if g.count(r) == 0]     # probability below T exp(-40)
            x = sum((g.count(r) - n / T) ** 2 for r in range(T)) / (n / T) if T > 1 else 0
            if miss:
                ctx.violation('row %d of %d is never asked for in %d SealPIR queries' % (miss[0], T, n), {'kind': 'baseline', 'table': T})
            elif x > T + 14 * (2 * T) ** .5 + 90:
                ctx.violation('SealPIR queries are spread unevenly over %d rows (chi square %.0f)' % (T, x), {'kind': 'baseline', 'table': T})
            ctx.count(spread_tests=1)


# -- Checklist -------------------------------------------------------------
def chk_case(ctx, bins, seed):
    R = random.Random('c25c/%s' % seed)
    kind = R.choice(['plain'] * 5 + ['fails', 'latencies', 'default', 'badcount', 'conn1', 'conn2', 'init', 'stop', 'server'])
    nk = R.choice([1, 2, 5, 40, 300])
    keys = R.sample(range(1 << 32), nk)
    N = R.choice([0, 1, 2, 5, 100, 999, 1000, 1001, 2500, R.randrange(1, 300)])
    scale = R.choice([1000, 10 ** 6, 10 ** 9])
    cfg = {'Keys': keys, 'Fail': [], 'Cost': [[R.randrange(0, 50) * scale + R.randrange(1000) for _ in range(R.randint(1, 5))] for _ in (0, 1)]}
    a1, a2 = ['%s:%d' % ('.'.join(str(R.randrange(1, 255)) for _ in range(4)), R.randrange(1, 65536)) for _ in (0, 1)]
    pt = R.choice(['Punc', 'DPF'])
    case = {'kind': kind, 'queries': N, 'keys': nk, 'pir': pt}
    b = Box(ctx, 'c%s' % str(seed).replace('/', '_'), bins)
    try:
        if kind == 'server':
            port, T = R.randrange(1, 65536), R.choice([10, 100000, 2500000])
            b.start(['./experiments/checklist/run_server.sh', str(T), str(port), pt], VB_CFG=json.dumps(cfg))
            rc, out, err = b.finish()
            c = [l.split('\t') for l in open(b.calls).read().splitlines()]
            if len(c) != 1 or '--' not in c[0]:
                return 'run_server.sh starts %d servers' % len(c), case
            opt = dict(x.lstrip('-').split('=', 1) for x in c[0][c[0].index('--') + 1:] if '=' in x)
            want = {'numRows': str(T), 'p': str(port), 'pirType': pt, 'rowLen': '8'}
            if any(opt.get(k) != v for k, v in want.items()) or opt.get('tls') not in ('0', 'false', 'f'):
                return 'run_server.sh passes %r for table %d port %d %s' % (opt, T, port, pt), case
            ctx.count(checklist_servers=1)
            return None, case
        if kind == 'fails' and N:
            cfg['Fail'] = sorted(R.sample(range(N), min(N, R.choice([1, 2, N]))))
        if kind == 'conn1':
            cfg['ConnFail'] = 1
        if kind == 'conn2':
            cfg['ConnFail'] = 2
        if kind == 'init':
            cfg['InitFail'] = True
        if kind == 'stop':
            N = 10 ** 7
            cfg['DelayUs'] = 2000
        args = ['-rowLen=8', '-tls=0', '-serverAddr=' + a1, '-serverAddr2=' + a2, '-pirType=' + pt]
        lat = b.d + '/lat.csv'
        if kind == 'latencies':
            args.append('-latenciesFile=' + lat)
        if kind == 'default':
            N = 10000
        elif kind == 'badcount':
            args.append(R.choice(['qx', 'q', 'q1.5', 'q12z']))
        else:
            args.append('q%d' % N)
        if kind in ('latencies', 'default', 'badcount', 'stop') or R.random() < .3:
            cmd = [bins['Checklist'], *args]
        else:
            cmd = ['./experiments/checklist/run_client.sh', a1, a2, str(N), pt]
        b.start(cmd, VB_CFG=json.dumps(cfg))
        if kind == 'stop':
            t = time.time()
            while open(b.log).read().count('\nread ') < 10 and time.time() - t < 60 and b.p.poll() is None:
                time.sleep(.01)
            b.p.send_signal(R.choice([signal.SIGTERM, signal.SIGINT]))
        rc, out, err = b.finish()
        ev = b.events()
        reads = [e for e in ev if e[0] == 'read']
        times = re.findall(r'(?m)^Server ([12]) time: (\S+) and bytes: (\d+)$', out)
        if rc is None:
            return 'the Checklist client does not end', case
        if kind in ('badcount', 'conn1', 'conn2', 'init'):
            if rc == 0 or times or reads:
                return 'the Checklist client ends with %d, %d reads and %d times although %s' % (rc, len(reads), len(times), {
                    'badcount': 'its number of queries is ' + args[-1]}.get(kind, 'it cannot reach its servers')), case
            ctx.count(refusals=1)
            return None, case
        if rc != 0:
            return 'the Checklist client fails with %d: %s' % (rc, err[-300:]), case
        if [e[1:] for e in ev if e[0] == 'connect'] != [['1', a1], ['2', a2]] and sorted(e[1:] for e in ev if e[0] == 'connect') != [['1', a1], ['2', a2]]:
            return 'the Checklist client connects to %r instead of %s and %s' % ([e[1:] for e in ev if e[0] == 'connect'], a1, a2), case
        if [e[1:] for e in ev if e[0] == 'init'] != [[pt]] or any(e[0] == 'unready' for e in ev):
            return 'the Checklist client asks for %r hints instead of one of %s' % ([e[1:] for e in ev if e[0] == 'init'], pt), case
        if kind == 'stop':
            if len(reads) >= N:
                return 'an interrupted Checklist client goes on', case
        elif len(reads) != N:
            return 'the Checklist client makes %d reads instead of %d' % (len(reads), N), case
        ks = set(keys)
        foreign = [e[1] for e in reads if int(e[1]) not in ks]
        if foreign:
            return 'the Checklist client reads the key %s, which does not exist' % foreign[0], case
        if len(reads) >= 60 * nk and len({e[1] for e in reads}) < nk:
            return 'the Checklist client never reads some of the %d keys in %d reads' % (nk, len(reads)), case
        want = []
        for s in ('1', '2'):
            sv = [e for e in ev if e[0] == 'serve' and e[1] == s]
            want.append((s, sv[-1][3] if sv else '0s', sv[-1][4] if sv else '0'))
        if times != want:
            return 'the Checklist client reports %r, the servers spent %r' % (times, want), case
        if kind == 'fails' and N:
            n = len(re.findall(r'Failed to read key (\d+)', out))
            if n != len(cfg['Fail']):
                return '%d of %d failed reads are reported' % (n, len(cfg['Fail'])), case
        if kind == 'latencies':
            n = len(open(lat).read().splitlines()) - 1
            if n != N:
                return 'the latencies file has %d entries for %d reads' % (n, N), case
        ctx.count(checklist_runs=1, checklist_reads=len(reads))
        ctx.seen(('c', kind, N, nk, pt, scale))
        return None, case
    finally:
        b.close()


def one(ctx, bins, j):
    return (seal_case if j[0] == 's' else chk_case)(ctx, bins, j[1])


def c25(ctx):
    ctx.rule = ('one evaluation = one run of a baseline driver (SealPIR or the Checklist client) with its own table, number of queries, server costs '
                'and, for some, a failing read, connection or interrupt; every recorded call and every reported number is compared')
    ctx.assume = ['SEAL, SealPIR and Checklist themselves are stand-ins (no network to fetch them): what is judged is the drivers of this repository',
                  'the SealPIR driver runs on a virtual clock that only the stand-in advances']
    bins = compile_all(ctx)
    rows = {}
    if 'SealPIR' in bins:
        seal_refused(ctx, bins)
    jobs = []
    for i in range(ctx.n(360, 3000)):
        if 'SealPIR' in bins:
            jobs.append(('s', '%d/%d' % (ctx.seed, i)))
        if 'Checklist' in bins:
            jobs.append(('c', '%d/%d' % (ctx.seed, i)))
    stop = threading.Event()

    def go(j):
        if stop.is_set() or ctx.left() < 0:
            return
        w, case = seal_case(ctx, bins, j[1], rows) if j[0] == 's' else chk_case(ctx, bins, j[1])
        with ctx.lock:
            ctx.evaluations += 1
        if w:
            stop.set()
            ctx.violation('%s [%s]' % (w, json.dumps(case)), {'kind': 'baseline', 'job': list(j), 'case': case})
        else:
            ctx.sample(case)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
    if not stop.is_set():
        seal_spread(ctx, rows)
