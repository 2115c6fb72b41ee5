"""C19: drives the tree's orchestrator (node main.js) with many workers in random
interleavings and compares every reply with a reference model."""
import base64, json, os, random, re, select, shutil, signal, socket, subprocess, time
import build, fw
from props_sys import read_cfg

NODE = os.path.join(build.VERIF, 'src', 'node')


class Bad(Exception):
    pass


class Orch:
    def __init__(self, root, gen):
        self.root = root
        os.makedirs(root + '/bin')
        os.makedirs(root + '/tmp')
        self.app = root + '/repo/experiments/orchestrator'
        os.makedirs(root + '/repo/experiments')
        with build.XLOCK:
            shutil.copytree(os.path.join(build.REPO, 'experiments', 'orchestrator'), self.app,
                            ignore=shutil.ignore_patterns('outputs', 'node_modules'))
            shutil.copy(NODE + '/bazel', root + '/bin/bazel')
        self.sockp = root + '/s'
        self.log = root + '/bazel.log'
        open(self.log, 'w').close()
        env = dict(os.environ, NODE_PATH=NODE, PATH=root + '/bin:' + os.environ['PATH'], VORCH_SOCK=self.sockp,
                   VORCH_TMP=root + '/tmp', VORCH_ROOT=root, VORCH_LOG=self.log, VORCH_GEN=gen, HOME=root, TMPDIR=root + '/tmp')
        env.pop('NODE_OPTIONS', None)
        self.err = open(root + '/stderr', 'wb')
        self.p = subprocess.Popen(['node', '-r', NODE + '/preload.js', 'main.js'], cwd=self.app, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.out = ''
        self.nid = 0
        self.acc = b''
        t = time.time()
        while True:
            self.c = socket.socket(socket.AF_UNIX)
            self.part, self.said = '', {}
            try:
                self.c.connect(self.sockp)
                break
            except OSError:             # not there, or bound but not listening yet
                self.c.close()
            if self.p.poll() is not None or time.time() - t > 60:
                raise Bad('the orchestrator does not start: ' + self.stderr())
            time.sleep(.02)
        self.wait_prompt()

    def stderr(self):
        self.err.flush()
        return open(self.root + '/stderr', errors='replace').read()[-600:]

    def pump(self, t=.02):
        r, _, _ = select.select([self.p.stdout], [], [], t)
        if r:
            try:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
            except BlockingIOError:
                return False
            if d == b'':
                raise Bad('the orchestrator ended: ' + self.stderr())
            d = d.decode('utf8', 'replace')
            self.out += d
            *ls, self.part = (self.part + d).split('\n')
            for l in ls:
                m = re.search(r'\bExperiment (\d+) is finished', l)
                if m:
                    self.said[int(m.group(1))] = self.said.get(int(m.group(1)), 0) + 1
            return True
        return False

    def wait_prompt(self, ends=('\n> ',), limit=30):
        """waits until the output ends as told, returns it"""
        t = time.time()
        while True:
            got = self.pump()
            if not got:
                if self.out.endswith(ends):
                    break
                if time.time() - t > limit:
                    raise Bad('the command line does not answer; last output %r' % self.out[-200:])
        o, self.out = self.out, ''
        return o

    def flush(self):
        while self.pump(0):
            pass
        self.out = ''

    def line(self, s, ends=('\n> ',)):
        self.p.stdin.write((s + '\n').encode())
        self.p.stdin.flush()
        return self.wait_prompt(ends)

    def cmd(self, s, answers=(), wait=True):
        self.flush()
        if not wait:
            self.p.stdin.write((s + '\n').encode())
            self.p.stdin.flush()
            return ''
        if not answers:
            return self.line(s)
        o = self.line(s, (': ', '\n> '))
        for i, a in enumerate(answers):
            if o.endswith('\n> '):
                return o
            last = i == len(answers) - 1
            o = self.line(a, ('\n> ',) if last else (': ', '\n> '))
        return o

    def send(self, method, url, ip, body=None):
        self.nid += 1
        q = {'id': self.nid, 'method': method, 'url': url, 'ip': ip}
        if body is not None:
            q['body'] = body
            q['headers'] = {'content-type': 'text/plain'}
        self.c.sendall((json.dumps(q) + '\n').encode())
        return self.nid

    def recv(self, ids, limit=60):
        got = {}
        t = time.time()
        while set(ids) - set(got):
            while b'\n' in self.acc:
                l, self.acc = self.acc.split(b'\n', 1)
                j = json.loads(l)
                if j['id'] in got:
                    raise Bad('request answered twice')
                got[j['id']] = (j['status'], base64.b64decode(j['body']))
            if not (set(ids) - set(got)):
                break
            self.pump(0)
            r, _, _ = select.select([self.c], [], [], .5)
            if r:
                d = self.c.recv(1 << 20)
                if not d:
                    raise Bad('the orchestrator ended: ' + self.stderr())
                self.acc += d
            if time.time() - t > limit:
                raise Bad('a request is never answered')
        return [got[i] for i in ids]

    def http(self, method, url, ip, body=None):
        return self.recv([self.send(method, url, ip, body)])[0]

    def gens(self):
        return [l for l in open(self.log).read().splitlines() if 'gen_config' in l]

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class Exp:
    def __init__(self, kind, name, cn, sn, **k):
        self.kind, self.name, self.cn, self.sn, self.k = kind, name, cn, sn, k
        self.clients, self.servers = [], []     # (worker, role)
        self.roles = {}                         # role -> ip
        self.fin_c = self.fin_s = 0
        self.files = {}
        self.config = None
        self.fetched = False
        self.oid = None

    def done(self):
        return self.fin_c == self.cn and self.fin_s == self.sn


class Worker:
    def __init__(self, wid, kind, ip, raw):
        self.id, self.kind, self.ip, self.raw = wid, kind, ip, raw
        self.exp = self.role = None
        self.kill = self.log = False


def num(x):
    """a number as JavaScript prints it (within the ranges used here)"""
    return str(int(float(x))) if float(x) == int(float(x)) else x


class Session:
    def __init__(self, ctx, seed, steps, gen):
        self.ctx, self.R = ctx, random.Random('orch%s' % seed)
        self.root = os.path.join(ctx.workdir, 'o%s' % str(seed).replace('/', '_'))
        os.makedirs(self.root)
        self.steps = steps
        self.trace = []
        self.W, self.E = [], []
        self.ngen = 0
        self.names = 0
        self.o = None
        self.gen = gen

    def t(self, *a):
        self.trace.append(a)

    # -- registering -------------------------------------------------------
    def register(self, kind):
        R = self.R
        if R.random() < .3 and self.W:
            ip = R.choice(self.W).ip            # several workers on one machine
        else:
            ip = '.'.join(str(R.choice([1, 10, 127, 172, 192, 9, 200, 255, R.randrange(1, 256)])) for _ in range(4))
        raw = R.choice([ip, '::ffff:' + ip])
        st, b = self.o.http('GET', '/giveip/' + kind, raw)
        if st != 200 or not re.fullmatch(rb'\d+', b):
            raise Bad('registering a %s from %s answers %d %r' % (kind, raw, st, b[:80]))
        wid = int(b)
        if any(w.id == wid for w in self.W):
            raise Bad('two workers are given the id %d' % wid)
        self.W.append(Worker(wid, kind, ip, raw))
        self.t('register', kind, raw, wid)

    def register_bad(self):
        raw = self.R.choice(['::1', 'fe80::1', '2001:db8::1', 'nonsense'])
        st, b = self.o.http('GET', '/giveip/' + self.R.choice(['server', 'client']), raw)
        self.t('register_bad', raw, st)
        if st == 200:
            raise Bad('a worker with the unusable address %s is accepted' % raw)

    def stray(self):
        """requests nobody should make (a worker of an earlier orchestrator, a worker without a job)"""
        R = self.R
        idle = [w for w in self.W if w.exp is None]
        if idle and R.random() < .4:
            wid, what = R.choice(idle).id, R.choice(['config', 'done'])
        else:
            wid, what = R.choice([10 ** 6, 999, 'x', '-1', 26 + len(self.W)]), R.choice(['config', 'done', 'ping', 'shouldkill', 'showlog'])
        st, b = self.o.http('POST' if what in ('done', 'showlog') else 'GET', '/%s/%s' % (what, wid), '127.0.0.1',
                            'nothing' if what in ('done', 'showlog') else None)
        self.t('stray', what, wid, st)
        if st < 400:
            raise Bad('%s of worker %s, which has no job, is answered %r' % (what, wid, b[:60]))
        self.ctx.count(stray_requests=1)

    # -- experiments -------------------------------------------------------
    def listing(self):
        o = self.o.cmd('experiments')
        r = []
        for m in re.finditer(r'Experiment (\d+) \((.*?)\), status: ([a-z]+)', o):
            r.append((int(m.group(1)), m.group(2), m.group(3)))
        return r

    def sync_new(self, expected):
        """expected: dict name -> Exp; appended in the order the orchestrator lists them"""
        l = self.listing()
        new = l[len(self.E):]
        if [x[1] for x in l[:len(self.E)]] != [e.name for e in self.E]:
            raise Bad('the list of experiments lost its order: %r' % (l,))
        if sorted(x[1] for x in new) != sorted(expected):
            raise Bad('experiments created %r, wanted %r' % (sorted(x[1] for x in new), sorted(expected)))
        for oid, name, st in new:
            e = expected[name]
            e.oid = oid
            self.E.append(e)

    def new_dppir(self):
        R = self.R
        multi = R.random() < .4
        pick = lambda xs, k: R.sample(xs, R.randint(1, min(k, len(xs)))) if multi else [R.choice(xs)]
        ns, nc = sum(w.kind == 'server' for w in self.W), sum(w.kind == 'client' for w in self.W)
        tables, parts, pars = pick([5, 17, 1000, 2500000, 100000], 2), pick([2, 3, 4], 2), pick([1, 2, 3], 2)
        batches = pick([0, 1, 2, 5, 7, 100, 12345, 1000000], 2)
        eps, dl = pick(['0.1', '0.5', '1', '2.25'], 2), pick(['0.000001', '0.01', '0.5', '0.00001'], 2)
        mode = R.choice(['online', 'offline', 'all'])
        base = 'x%d' % self.names
        self.names += 1
        exp = {}
        short = False
        for t in tables:
            for p in parts:
                for q in pars:
                    if p * q > ns or q > nc:
                        short = True
                    for b in batches:
                        for e in eps:
                            for d in dl:
                                n = '%s-%d-%d-%d-%d-%s-%s' % (base, t, p, q, b, num(e), num(d))
                                exp[n] = Exp('dppir', n, q, p * q, table=t, P=p, S=q, eps=e, delta=d, mode=mode, queries=b // q)
        if short and len(exp) > 1:
            return
        o = self.o.cmd('new dppir', [base, mode, ','.join(map(str, tables)), ','.join(map(str, parts)), ','.join(map(str, pars)),
                                     ','.join(map(str, batches)), ','.join(eps), ','.join(dl)])
        self.t('new dppir', sorted(exp), 'short' if short else '')
        if short:
            exp = {}
        self.sync_new(exp)

    def new_other(self):
        R = self.R
        base = 'y%d' % self.names
        self.names += 1
        ts = R.sample([10, 100, 5000], R.choice([1, 1, 2]))
        qs = R.sample([1, 20, 300], R.choice([1, 1, 2]))
        kind = R.choice(['checklist', 'sealpir'])
        pt = R.choice(['', 'Punc', 'DPF'])
        exp = {}
        for t in ts:
            for q in qs:
                n = '%s-%d-%d' % (base, t, q)
                exp[n] = Exp(kind, n, 1, 2 if kind == 'checklist' else 0, table=t, queries=q, pir=pt or 'Punc')
        a = [base, ','.join(map(str, ts)), ','.join(map(str, qs))] + ([pt] if kind == 'checklist' else [])
        self.o.cmd('new ' + kind, a)
        self.t('new', kind, sorted(exp))
        self.sync_new(exp)

    def store_load(self):
        f = 'f%d' % self.names
        self.names += 1
        self.o.cmd('store ' + f)
        p = self.o.app + '/stored/%s.json' % f
        try:
            j = json.load(open(p))
        except (OSError, ValueError) as e:
            raise Bad('store does not write a readable file: %s' % e)
        if [x.get('name_') for x in j] != [e.name for e in self.E]:
            raise Bad('stored experiments differ from the registered ones')
        if len(self.E) > 8 or not self.E:
            return
        # load them back under other names
        exp = {}
        for i, x in enumerate(j):
            e = self.E[i]
            x['name_'] = '%s-%d' % (f, i)
            exp[x['name_']] = Exp(e.kind, x['name_'], e.cn, e.sn, **e.k)
        json.dump(j, open(p, 'w'))
        self.o.cmd('load ' + f)
        self.t('load', sorted(exp))
        self.sync_new(exp)

    def kill(self):
        if not self.E:
            return
        e = self.R.choice(self.E)
        self.o.cmd('kill %d' % e.oid)
        n = 0
        for w in self.W:
            if w.exp is e:
                w.kill = True
                n += 1
        self.t('kill', e.name, n)

    # -- the worker protocol -----------------------------------------------
    def next_exp(self, kind):
        for e in self.E:
            if kind == 'client' and len(e.clients) < e.cn:
                return None if e.kind == 'checklist' and len(e.servers) < e.sn else e
            if kind == 'server' and len(e.servers) < e.sn:
                return e
        return None

    def ping(self, ws):
        ids = [self.o.send('GET', '/ping/%d' % w.id, w.raw) for w in ws]
        for w, (st, b) in zip(ws, self.o.recv(ids)):
            e = self.next_exp(w.kind)
            r = b.decode('latin1')
            self.t('ping', w.id, r)
            w.kill = False
            if st != 200:
                raise Bad('ping of worker %d answers %d %r' % (w.id, st, r[:100]))
            if e is None:
                if r != 'WAIT':
                    raise Bad('worker %d (%s) gets the job "%s" although no experiment needs it' % (w.id, w.kind, r))
                continue
            if r == 'WAIT':
                raise Bad('idle worker %d (%s) has to wait although experiment %s needs it' % (w.id, w.kind, e.name))
            f = r.split(' ')
            if f[0] != e.kind:
                raise Bad('worker %d gets a %s job, but experiment %s (%s) is next' % (w.id, f[0], e.name, e.kind))
            k = e.k
            if e.kind == 'dppir':
                if w.kind == 'client':
                    role = ('client', int(f[1]))
                    ok = 0 <= role[1] < e.cn
                    want = ['dppir', f[1], str(k['queries']), k['mode']]
                else:
                    role = ('party', int(f[1]), int(f[2]))
                    ok = 0 <= role[1] < k['P'] and 0 <= role[2] < k['S']
                    want = ['dppir', f[1], f[2], k['mode']]
                if not ok:
                    raise Bad('experiment %s hands out the role %r, which does not exist' % (e.name, role))
                fname = '-'.join(map(str, role)) + '.log'
            elif e.kind == 'checklist':
                if w.kind == 'client':
                    role = ('client', 0)
                    a = ['%s:%d' % (s.ip, 10000 + s.id) for s, _ in e.servers]
                    want = ['checklist', *a, str(k['queries']), k['pir']]
                    if len(f) == 5 and sorted(f[1:3]) == sorted(a):
                        want[1:3] = f[1:3]
                    fname = 'client.log'
                else:
                    role = ('server', w.id, len(e.servers))
                    want = ['checklist', str(w.id), str(k['table']), str(10000 + w.id), k['pir']]
                    fname = 'server%d.log' % w.id
            else:
                role = ('client', 0)
                want = ['sealpir', str(k['table']), str(k['queries'])]
                fname = 'sealpir.log'
            if f != want:
                raise Bad('worker %d gets the job "%s", should be "%s"' % (w.id, r, ' '.join(want)))
            if role in e.roles:
                raise Bad('experiment %s hands out role %r twice' % (e.name, role))
            e.roles[role] = w.ip
            (e.clients if w.kind == 'client' else e.servers).append((w, role))
            w.exp, w.role, w.file = e, role, fname
            self.ctx.count(assignments=1)

    def config(self, ws):
        ids = [self.o.send('GET', '/config/%d' % w.id, w.raw) for w in ws]
        for w, (st, b) in zip(ws, self.o.recv(ids)):
            e = w.exp
            self.t('config', w.id, len(b))
            if st != 200:
                raise Bad('config of worker %d answers %d' % (w.id, st))
            full = len(e.servers) == e.sn
            if not full:
                if b != b'WAIT':
                    raise Bad('worker %d gets a configuration before all servers of %s are known' % (w.id, e.name))
                self.ctx.count(config_waits=1)
                continue
            for _ in range(50):
                if b != b'WAIT':
                    break
                time.sleep(.1)
                st, b = self.o.http('GET', '/config/%d' % w.id, w.raw)
            if b == b'WAIT':
                raise Bad('worker %d never gets the configuration of %s' % (w.id, e.name))
            if e.config is None:
                e.config = b
                self.check_config(e, b)
            elif e.config != b:
                raise Bad('two workers of experiment %s get different configurations' % e.name)
            self.ctx.count(configs_served=1)
        n = sum(e.config is not None for e in self.E)
        if len(self.o.gens()) != n:
            raise Bad('%d configurations generated for %d experiments' % (len(self.o.gens()), n))

    def check_config(self, e, b):
        p = self.root + '/c'
        open(p, 'wb').write(b)
        c = read_cfg(self.ctx, p)
        if 'error' in c:
            raise Bad('the configuration of %s is unreadable: %s' % (e.name, c['error']))
        k = e.k
        want = (k['table'], float(k['eps']).hex(), float(k['delta']).hex(), k['P'], k['S'])
        got = (c['db'], float.fromhex(c['eps']).hex(), float.fromhex(c['delta']).hex(), c['P'], c['S'])
        if want != got:
            raise Bad('configuration of %s has %r, should have %r' % (e.name, got, want))
        for pp in range(k['P']):
            for s in range(k['S']):
                a = c['parties'][pp]['servers'][s][3]
                if a != e.roles[('party', pp, s)]:
                    raise Bad('configuration of %s names %s for party %d server %d, but that role is with the worker at %s'
                              % (e.name, a, pp, s, e.roles[('party', pp, s)]))

    def shouldkill(self, w):
        st, b = self.o.http('GET', '/shouldkill/%d' % w.id, w.raw)
        want = b'2' if w.log else b'1' if w.kill else b'0'
        self.t('shouldkill', w.id, b.decode('latin1'))
        if b.strip() != want:
            raise Bad('worker %d (%s) is told %r, should be told %r' % (w.id, w.exp.name, b, want))
        if w.log:
            w.log = False
            st, _ = self.o.http('POST', '/showlog/%d' % w.id, w.raw, 'log of %d\n' % w.id + self.bulk(2))
            if st != 200:
                raise Bad('showlog answers %d' % st)
            o = self.o.wait_prompt()
            if 'log of %d' % w.id not in o:
                raise Bad('the requested log of worker %d is not shown' % w.id)
            self.asked = False

    asked = False

    def bulk(self, most):
        # what a job prints: usually little; now and then megabytes
        n = self.R.choice([0, 10, 5000, 5000, 200 << 10] + [int(self.R.uniform(1, most) * (1 << 20))] * (self.R.random() < .04))
        return ('Progress: %d queries\n' % self.R.randrange(10 ** 6) * (n // 20 + 1))[:n]

    def done(self, w):
        e = w.exp
        body = 'result of %d as %r\n' % (w.id, w.role) + self.bulk(20) + str(self.R.random())
        st, b = self.o.http('POST', '/done/%d' % w.id, w.raw, body)
        self.t('done', w.id, e.name, w.role)
        if st != 200:
            raise Bad('done of worker %d answers %d %r' % (w.id, st, b[:100]))
        e.files[w.file] = body
        d = self.o.app + '/outputs/' + e.name
        got = {}
        for f in os.listdir(d) if os.path.isdir(d) else []:
            got[f] = open(os.path.join(d, f), newline='').read()
        if got != e.files:
            miss = [f for f in e.files if got.get(f) != e.files[f]]
            raise Bad('results of %s: %s' % (e.name, ('%s is missing or not what its worker sent' % miss[0]) if miss else
                                             'unexpected files %r' % sorted(set(got) - set(e.files))))
        if w.kind == 'client':
            e.fin_c += 1
            if e.fin_c == e.cn and e.kind == 'checklist':
                for x in self.W:
                    if x.exp is e and x.kind == 'server':
                        x.kill = True
        else:
            e.fin_s += 1
        w.exp = w.role = None
        w.kill = False
        self.ctx.count(results=1)

    def status(self):
        l = self.listing()
        if [x[1] for x in l] != [e.name for e in self.E]:
            raise Bad('the list of experiments is %r' % (l,))
        for (oid, name, st), e in zip(l, self.E):
            if (st == 'done') != e.done():
                raise Bad('experiment %s is listed as %s with %d of %d clients and %d of %d servers finished'
                          % (name, st, e.fin_c, e.cn, e.fin_s, e.sn))
            if self.o.said.get(int(oid), 0) != (st == 'done'):
                raise Bad('the end of experiment %s (%s) is announced %d times' % (name, st, self.o.said.get(int(oid), 0)))
            if len(e.clients) == e.cn and len(e.servers) == e.sn and st == 'waiting':
                raise Bad('experiment %s is waiting although all its roles are taken' % name)
        self.t('status', [x[2] for x in l])

    # -- one session -------------------------------------------------------
    def step(self):
        R = self.R
        idle = [w for w in self.W if w.exp is None and not w.log]
        busy = [w for w in self.W if w.exp is not None]
        x = R.random()
        if x < .12 and len(self.W) < 26:
            self.register(R.choice(['server', 'server', 'client']))
        elif x < .13:
            self.register_bad()
        elif x < .15:
            self.stray()
        elif x < .40 and idle:
            self.ping(R.sample(idle, min(len(idle), R.choice([1, 1, 2, 5]))))
        elif x < .55:
            c = [w for w in busy if w.exp.kind == 'dppir']
            if c:
                w = R.choice(c)
                g = [v for v in c if v.exp is w.exp]
                self.config(R.sample(g, R.choice([1, len(g)])))
        elif x < .67 and busy:
            self.shouldkill(R.choice(busy))
        elif x < .82 and busy:
            f = [w for w in busy if len(w.exp.clients) == w.exp.cn and len(w.exp.servers) == w.exp.sn]
            if f and R.random() < .85:
                busy = f
            elif R.random() < .6:
                return
            w = R.choice(busy)
            if not w.log:
                self.done(w)
        elif x < .89 and len(self.E) < 14:
            (self.new_dppir if R.random() < .65 else self.new_other)()
        elif x < .91 and len(self.E) < 14:
            self.store_load()
        elif x < .94:
            self.kill()
        elif x < .96 and busy and not self.asked:
            w = R.choice(busy)
            self.asked = True
            self.o.cmd('log %d' % w.id, wait=False)
            t = time.time()
            while 'Waiting' not in self.o.out and time.time() - t < 5:
                self.o.pump()
            self.o.flush()
            w.log = True
            self.shouldkill(w)
        else:
            self.status()
        self.ctx.count(orchestrator_steps=1)

    def drain(self):
        """everybody works until nothing is left"""
        for _ in range(400):
            if all(e.done() for e in self.E):
                break
            busy = [w for w in self.W if w.exp is not None]
            for w in busy:
                e = w.exp
                if len(e.clients) == e.cn and len(e.servers) == e.sn:
                    if e.kind == 'dppir' and e.config is None:
                        self.config([w])
                    self.shouldkill(w)
                    if self.R.random() < .7:
                        self.done(w)
            idle = [w for w in self.W if w.exp is None]
            self.R.shuffle(idle)
            na = sum(w.exp is not None for w in self.W)
            self.ping(idle)
            kinds = {w.kind for w in self.W}
            if not busy and len(kinds) == 2 and sum(w.exp is not None for w in self.W) == na:
                raise Bad('idle workers, but unfinished experiments')
            stuck = [w for w in self.W if w.exp is not None]
            if len(stuck) == len(self.W) or not busy:
                self.register('server')
                self.register('client')
        self.status()
        if not all(e.done() for e in self.E):
            return False
        return True

    def run(self):
        self.o = Orch(self.root, self.gen)
        try:
            for _ in range(self.R.choice([2, 4, 8])):
                self.register(self.R.choice(['server', 'client', 'server']))
            for _ in range(self.steps):
                if self.ctx.left() < 0:
                    return False
                self.step()
            return self.drain()
        except Bad as b:
            return str(b)
        finally:
            self.o.close()
            shutil.rmtree(self.root, ignore_errors=True)


def shipped(ctx, gen):
    """every shipped experiment list loads completely"""
    root = os.path.join(ctx.workdir, 'shipped')
    os.makedirs(root)
    o = Orch(root, gen)
    try:
        for f in sorted(os.listdir(o.app + '/stored')):
            j = json.load(open(os.path.join(o.app, 'stored', f)))
            before = len(re.findall(r'Experiment \d+ \(', o.cmd('experiments')))
            o.cmd('load ' + f[:-5])
            after = re.findall(r'Experiment \d+ \((.*?)\), status', o.cmd('experiments'))
            if after[before:] != [x['name_'] for x in j]:
                ctx.violation('shipped list %s is not loaded as written' % f, {'kind': 'orch', 'file': f})
            ctx.count(shipped_experiments=len(j))
    finally:
        o.close()
        shutil.rmtree(root, ignore_errors=True)


def c19(ctx):
    ctx.rule = 'orchestrator sessions (random legal interleavings of all worker requests and commands, then run to completion) in which at least one experiment finished'
    ctx.assume = ['workers follow the daemon scripts: one job at a time, result reported once',
                  'express, body-parser, ipaddr.js and bazel are stand-ins (no network to install them)']
    gen = ctx.bins('san').get('gen_config')
    if not gen:
        raise fw.Broken('no gen_config')
    from concurrent.futures import ThreadPoolExecutor
    try:
        shipped(ctx, gen)
    except Bad as b:
        ctx.violation('orchestrator: %s' % b, {'kind': 'orch', 'seed': 'shipped'})

    def one(i):
        if len(ctx.viol) > 2 or ctx.left() < 0:
            return
        seed = '%d/%d' % (ctx.seed, i)
        s = Session(ctx, seed, random.Random(seed).choice([60, 150, 300]), gen)
        try:
            r = s.run()
        except Bad as b:
            r = str(b)
        if isinstance(r, str):
            ctx.violation('orchestrator: ' + r, {'kind': 'orch', 'seed': seed, 'steps': s.steps, 'history': s.trace[-80:]})
        ctx.count(experiments=len(s.E), experiments_done=sum(e.done() for e in s.E), workers=len(s.W))
        with ctx.lock:
            ctx.evaluations += 1
            if any(e.done() for e in s.E):
                ctx.distinct.add(json.dumps(s.trace, default=str))
        if i < 2:
            ctx.sample({'session': seed, 'requests': len(s.trace), 'first': [list(map(str, x)) for x in s.trace[:12]]})
    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, range(ctx.n(48, 400))))
