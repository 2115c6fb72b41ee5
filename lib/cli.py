"""C24: the orchestrator's command line against a reference model: creating, listing, storing, loading,
clearing and killing experiments while workers come and go."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build, fw, orch
from orch import Bad, Exp, num

STAT = re.compile(r'^Worker (\d+), worker type: (\w+), status: ([a-z ]+), last ping: [-0-9.e]+sec, ip: (\S+)$', re.M)


class Cli(orch.Session):
    def __init__(self, ctx, seed, steps, gen):
        super().__init__(ctx, 'cli' + str(seed), steps, gen)
        self.past = []
        self.files = {}      # stored/<name>.json -> list of Exp templates

    # -- helpers -----------------------------------------------------------
    def tmpl(self, e, name=None):
        return Exp(e.kind, name or e.name, e.cn, e.sn, **e.k)

    def obj(self, e):
        k = e.k
        o = {'name_': e.name, 'experimentType': e.kind, 'clientsNum': e.cn, 'serversNum': e.sn, 'queries': k['queries'], 'tableSize': k['table']}
        if e.kind == 'dppir':
            o.update(mode=k['mode'], parties=k['P'], parallelism=k['S'], epsilon=float(k['eps']), delta=float(k['delta']))
        if e.kind == 'checklist':
            o['pirtype'] = k['pir']
        return o

    def sync(self, order, partial=False):
        """the experiments listed after the known ones must be these, in this order (partial: a leading part of them)"""
        l = self.listing()
        if [x[1] for x in l[:len(self.E)]] != [e.name for e in self.E]:
            raise Bad('the list of experiments lost its order: %r' % ([x[1] for x in l],))
        new = [x[1] for x in l[len(self.E):]]
        want = [e.name for e in order]
        if new != want and not (partial and new == want[:len(new)]):
            raise Bad('experiments added %r, should be %r' % (new, want))
        for (oid, name, st), e in zip(l[len(self.E):], order):
            if any(x.oid == oid for x in self.E + self.past):
                raise Bad('two experiments have the number %d' % oid)
            e.oid = oid
        self.E += order[:len(new)]

    # -- commands ----------------------------------------------------------
    def gens_expected(self):
        return sum(e.config is not None for e in self.E + self.past)

    def new_lists(self):
        """lists of values: one experiment per combination; none without enough workers"""
        R = self.R
        ns, nc = sum(w.kind == 'server' for w in self.W), sum(w.kind == 'client' for w in self.W)
        pick = lambda xs: R.sample(xs, R.choice([1, 1, 1, 2, 3]))
        tables, parts, pars = pick([5, 17, 1000, 2500000]), R.sample([2, 3, 4, 5], R.choice([1, 1, 2])), R.sample([1, 2, 3], R.choice([1, 1, 2]))
        batches, eps, dl = pick([0, 1, 5, 7, 100, 12345, 1000000]), R.sample(['0.1', '0.5', '1', '2.25'], R.choice([1, 1, 2])), [R.choice(['0.000001', '0.01', '0.5'])]
        mode = R.choice(['online', 'offline', 'all'])
        base = 'x%d' % self.names
        self.names += 1
        exp, ok = {}, {}
        for t in tables:
            for p in parts:
                for q in pars:
                    for b in batches:
                        for e in eps:
                            for d in dl:
                                n = '%s-%d-%d-%d-%d-%s-%s' % (base, t, p, q, b, num(e), num(d))
                                exp[n] = Exp('dppir', n, q, p * q, table=t, P=p, S=q, eps=e, delta=d, mode=mode, queries=b // q)
                                if p * q <= ns and q <= nc:
                                    ok[n] = exp[n]
        if len(self.E) + len(exp) > 24:
            return
        s = lambda x: (', ' if R.random() < .1 else ',').join(map(str, x))
        self.o.cmd('new dppir', [base, mode, s(tables), s(parts), s(pars), s(batches), s(eps), s(dl)])
        self.t('new dppir', len(exp), len(ok))
        l = self.listing()[len(self.E):]
        got = [x[1] for x in l]
        if len(set(got)) != len(got):
            raise Bad('an experiment is created twice: %r' % got)
        bad = [n for n in got if n not in ok]
        if bad:
            raise Bad('created %s, which %s' % (bad[0], 'needs more workers than there are' if bad[0] in exp else 'was not asked for'))
        if len(ok) == len(exp) and len(got) != len(ok):
            raise Bad('only %d of %d experiments are created' % (len(got), len(ok)))
        self.sync([ok[n] for n in got])
        self.ctx.count(created=len(got), withheld=len(exp) - len(got))

    def new_refused(self):
        R = self.R
        b = 'z%d' % self.names
        self.names += 1
        k = R.randrange(3)
        if k == 0:
            o = self.o.cmd('new dppir', [b, R.choice(['', 'both', 'ONLINE', 'onlin', 'on line'])])
        elif k == 1:
            o = self.o.cmd('new checklist', [b, '10', '5', R.choice(['punc', 'dpf', 'PUNC', 'x', 'Punc1'])])
        else:
            o = self.o.cmd('new ' + R.choice(['', 'foo', 'DPPIR', 'dppirx']))
        self.t('new refused', k)
        if not o.endswith('\n> '):
            # it asks on: the wrong answer was taken
            raise Bad('an invalid %s is accepted' % ('mode', 'scheme', 'experiment type')[k])
        self.sync([])
        self.ctx.count(refused=1)

    def store(self):
        f = 'f%d' % self.names
        self.names += 1
        self.o.cmd('store ' + f)
        try:
            j = json.load(open(self.o.app + '/stored/%s.json' % f))
        except (OSError, ValueError) as e:
            raise Bad('store does not write a readable file: %s' % e)
        want = [self.obj(e) for e in self.E]
        if j != want:
            i = next((i for i, (a, b) in enumerate(zip(j, want)) if a != b), min(len(j), len(want)))
            raise Bad('stored experiment %d is %s, should be %s' % (i, j[i] if i < len(j) else 'missing', want[i] if i < len(want) else 'absent'))
        self.files[f] = [self.tmpl(e) for e in self.E]
        self.t('store', f, len(j))
        self.ctx.count(stored=len(j))

    def write(self, f, es, junk=None):
        j = [self.obj(e) for e in es]
        if junk is not None:
            j.insert(junk, {'name_': 'junk', 'experimentType': 'mystery', 'clientsNum': 1, 'serversNum': 1})
        with open(self.o.app + '/stored/%s.json' % f, 'w') as h:
            json.dump(j, h, indent=self.R.choice([None, 2]))

    def invent(self, n):
        R = self.R
        out = []
        for _ in range(n):
            name = 'l%d' % self.names
            self.names += 1
            k = R.choice(['dppir', 'dppir', 'checklist', 'sealpir'])
            if k == 'dppir':
                P, S = R.choice([2, 3]), R.choice([1, 1, 2])
                out.append(Exp(k, name, S, P * S, table=R.randrange(5, 10 ** 6), P=P, S=S, eps=R.choice(['0.1', '1', '2.25', '1e-7']),
                               delta=R.choice(['0.000001', '0.5']), mode=R.choice(['online', 'offline', 'all']), queries=R.choice([0, 1, 77, 10 ** 7])))
            else:
                out.append(Exp(k, name, 1, 2 if k == 'checklist' else 0, table=R.randrange(1, 10 ** 6), queries=R.choice([1, 50, 10 ** 6]),
                               pir=R.choice(['Punc', 'DPF'])))
        return out

    def load(self):
        R = self.R
        if len(self.E) > 16:
            return
        for f in os.listdir(self.o.app + '/stored'):      # keep only what this session wrote
            os.unlink(os.path.join(self.o.app, 'stored', f))
        x = R.random()
        if x < .3:
            es = self.invent(R.randint(0, 4))
            self.write('one', es)
            self.o.cmd('load one')
            self.t('load', len(es))
            self.sync(es)
        elif x < .5:
            es = self.invent(R.randint(1, 5))
            self.write('ask', es)
            ans = [R.choice(['', 'y', 'Y', 'yes', 'n', 'N', 'no', 'NO', 'No']) for _ in es]
            self.o.cmd('loadi ask', ans)
            self.t('loadi', ans)
            self.sync([e for e, a in zip(es, ans) if a.lower() not in ('n', 'no')])
        elif x < .7:
            fs = {n: self.invent(R.randint(0, 2)) for n in R.sample(['a', 'bb', 'c.d', 'z9'], R.randint(1, 3))}
            for f, es in fs.items():
                self.write(f, es)
            open(self.o.app + '/stored/notes.txt', 'w').write('not json')
            self.o.cmd('load *')
            self.t('load *', {f: len(es) for f, es in fs.items()})
            names = [x[1] for x in self.listing()[len(self.E):]]
            by = {e.name: e for es in fs.values() for e in es}
            if sorted(names) != sorted(by):
                raise Bad('load * adds %r, should be %r' % (names, sorted(by)))
            for es in fs.values():
                if [n for n in names if n in {e.name for e in es}] != [e.name for e in es]:
                    raise Bad('load * changes the order of experiments')
            self.sync([by[n] for n in names])
        elif x < .85:
            k = R.randrange(3)
            if k == 0:
                self.o.cmd('load nosuchfile')
                es = []
            elif k == 1:
                with open(self.o.app + '/stored/broken.json', 'w') as h:
                    h.write('[{"name_": "broken",')
                self.o.cmd('load broken')
                es = []
            else:
                es = self.invent(3)
                at = R.randrange(4)
                self.write('odd', es, at)
                self.o.cmd('load odd')
                es = es[:at]
            self.t('load bad', k)
            self.sync(es, partial=True)
        else:
            # what was stored is loaded again as it was, under other names
            self.store()
            f = list(self.files)[-1]
            if len(self.files[f]) > 6:
                return
            p = self.o.app + '/stored/%s.json' % f
            j = json.load(open(p))
            es = []
            for o, e in zip(j, self.files[f]):
                o['name_'] = '%s-%d' % (f, len(es))
                es.append(self.tmpl(e, o['name_']))
            json.dump(j, open(p, 'w'))
            self.o.cmd('load ' + f)
            self.t('reload', len(es))
            self.sync(es)
        self.ctx.count(loads=1)

    def clear(self):
        self.o.cmd('clear')
        self.past += self.E
        self.E = []
        self.t('clear')
        if self.listing():
            raise Bad('experiments are listed after clear')
        self.ctx.count(clears=1)

    def unknown(self):
        n = self.R.choice([10 ** 6, 999, 12345])
        if self.past and self.R.random() < .5:
            n = self.R.choice(self.past).oid
            c = self.R.choice(['kill', 'info'])
        else:
            c = self.R.choice(['kill', 'info', 'log'])
        o = self.o.cmd('%s %d' % (c, n))
        self.t('unknown', c, n)
        if 'ERROR' not in o:
            raise Bad('%s of the unknown number %d is not refused' % (c, n))
        self.ctx.count(unknown=1)

    def log_none(self):
        """the log of a job that does not exist, or that ends before its worker sends the log"""
        idle = [w for w in self.W if w.exp is None]
        busy = [w for w in self.W if w.exp is not None]
        if self.asked or not (idle or busy):
            return
        if idle and (not busy or self.R.random() < .5):
            w = self.R.choice(idle)
            self.t('log idle', w.id)
            o = self.o.cmd('log %d' % w.id)
            if 'ERROR' not in o:
                raise Bad('the log of worker %d, which has no job, is not refused' % w.id)
        else:
            w = self.R.choice(busy)
            self.t('log ends', w.id)
            self.o.cmd('log %d' % w.id, wait=False)
            t = time.time()
            while 'Waiting' not in self.o.out and time.time() - t < 5:
                self.o.pump()
            if self.R.random() < .5:
                w.log = True
                self.shouldkill(w)
            else:
                self.done(w)
                self.o.wait_prompt()
        self.ctx.count(logs=1)

    def info(self):
        if not self.E:
            return
        e = self.R.choice(self.E)
        o = self.o.cmd('info %d' % e.oid)
        self.t('info', e.name)
        if '(%s)' % e.name not in o or e.kind not in o:
            raise Bad('info of %s shows another experiment: %r' % (e.name, o[:200]))
        k = e.k
        want = {'tableSize': str(k['table']), 'queries': str(k['queries'])}
        if e.kind == 'dppir':
            want.update(mode=k['mode'], parties=str(k['P']), parallelism=str(k['S']), epsilon=None, delta=None)
            got = sorted((int(a), b) for a, b in re.findall(r'worker (\d+) -> (\S+)', o))
            roles = sorted((w.id, '-'.join(map(str, r[1:]))) for w, r in e.clients + e.servers)
            # a worker that served twice in it is listed twice, with its present role
            ids = [w for w, _ in roles]
            once = lambda l: [x for x in l if ids.count(x[0]) == 1]
            if sorted(w for w, _ in got) != ids or once(got) != once(roles):
                raise Bad('info of %s lists the workers %r, should be %r' % (e.name, got, roles))
        elif e.kind == 'checklist':
            want['pirtype'] = k['pir']
        for a, v in want.items():
            m = re.findall(r'(?m)^\s*%s: (\S+)$' % a, o)
            if len(m) != 1 or (m[0] != v if v is not None else float(m[0]) != float(k['eps' if a == 'epsilon' else 'delta'])):
                raise Bad('info of %s shows %s %r' % (e.name, a, m))
        if e.kind != 'dppir':
            for kind, ws in (('clients', e.clients), ('servers', e.servers)):
                m = re.search(r'%s: \[([\s\d]*)\]' % kind, o)
                if not m or sorted(map(int, m.group(1).split())) != sorted(w.id for w, _ in ws):
                    raise Bad('info of %s lists other %s than %r' % (e.name, kind, [w.id for w, _ in ws]))
        self.ctx.count(infos=1)

    def workers(self):
        o = self.o.cmd('workers')
        got = [(int(a), b, c, d) for a, b, c, d in STAT.findall(o)]
        want = [(w.id, w.kind, 'ready' if w.exp is None else 'cleaning up' if w.kill else 'working', w.ip) for w in self.W]
        self.t('workers', len(got))
        if sorted(got) != sorted(want):
            d = [x for x in got if x not in want] or [x for x in want if x not in got]
            raise Bad('workers shows %r (%d of %d)' % (d[0], len(got), len(want)))
        self.ctx.count(worker_lists=1)

    def kill_fresh(self):
        """killing an experiment nobody serves stops nobody"""
        self.kill()

    def config(self, ws):
        n = len(self.past)
        keep, self.E = self.E, self.E + self.past
        try:
            super().config(ws)
        finally:
            self.E = keep

    def step(self):
        x = self.R.random()
        if x < .10:
            self.new_lists()
        elif x < .14:
            self.new_refused()
        elif x < .18:
            self.store()
        elif x < .30:
            self.load()
        elif x < .325:
            self.clear()
        elif x < .35:
            self.unknown()
        elif x < .37:
            self.log_none()
        elif x < .41:
            self.info()
        elif x < .45:
            self.workers()
        else:
            super().step()
        self.ctx.count(command_line_steps=1)


def reader(ctx, seed):
    """read.sh in a scratch copy: shows the results of the experiments and the role it is given, and no others"""
    R = random.Random('read/%s' % seed)
    root = tempfile.mkdtemp(prefix='read.', dir=ctx.workdir)
    try:
        shutil.copy(os.path.join(build.REPO, 'experiments', 'orchestrator', 'read.sh'), root)
        os.makedirs(root + '/outputs')
        dirs = {}
        for i in range(R.choice([1, 3, 8, 20])):
            d = '%s%d-%d-%d-%d' % (R.choice(['fig', 'fig', 'table', 'x']), R.randrange(13), 10 ** R.randrange(2, 7), R.randrange(2, 5), R.randrange(1, 12))
            if d in dirs:
                continue
            dirs[d] = {}
            os.makedirs(root + '/outputs/' + d)
            for f in R.choice([['client.log', 'server0.log', 'server12.log', 'server3.log'], ['sealpir.log'], [],
                               ['client-%d.log' % k for k in range(R.randrange(1, 12))] +
                               ['party-%d-%d.log' % (a, b) for a in range(2) for b in range(R.randrange(1, 12))]]):
                n = R.choice([0, 1, 4, 200])
                dirs[d][f] = ['%s/%s line %d took %dms $HOME * ok' % (d, f, k, R.randrange(10 ** 6)) for k in range(n)]
                with open(root + '/outputs/' + d + '/' + f, 'w') as o:
                    o.write(''.join(l + '\n' for l in dirs[d][f]))
        for _ in range(4):
            what = R.choice(['fig', 'table', 'x', 'fig1', 'fig12-', '2-10', '00', 'none'] + list(dirs))
            role = R.choice(['', 'client', 'client-0', 'party', 'party-0', 'party-1-1', 'server', 'server1', 'sealpir', 'no', '0', '1-1', 'ver'])
            p = subprocess.run(['bash', './read.sh', what, role], cwd=root, capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
            lines = [l for l in p.stdout.splitlines() if l.strip() and l.strip('=-# ')]
            want = {d: sorted(l for f, ls in fs.items() if f.startswith(role) for l in ls) for d, fs in dirs.items() if what in d}
            got, cur = {}, None
            for l in lines:
                if l.strip() in dirs:
                    cur = l.strip()
                    if cur in got:
                        return 'read.sh %s %s shows %s twice' % (what, role, cur)
                    got[cur] = []
                elif cur is not None and ' line ' in l:
                    got[cur].append(l)
            for d in got:
                got[d].sort()
            with ctx.lock:
                ctx.distinct.add(json.dumps([what, role, sorted(want.items())]))
            ctx.count(reads=1)
            if got != want:
                d = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)][0]
                return 'read.sh %s %r shows %s of %s, should show %s' % (
                    what, role, 'nothing' if d not in got else '%d lines' % len(got[d]), d, 'nothing' if d not in want else '%d lines' % len(want[d]))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def c24(ctx):
    ctx.rule = 'orchestrator sessions mixing all commands with worker requests, every answer and listing compared with a reference model'
    ctx.assume = ['workers follow the daemon scripts: one job at a time, result reported once',
                  'express, body-parser, ipaddr.js and bazel are stand-ins (no network to install them)']
    gen = ctx.bins('san').get('gen_config')
    if not gen:
        raise fw.Broken('no gen_config')

    def one(i):
        if len(ctx.viol) > 2 or ctx.left() < 0:
            return
        seed = '%d/%d' % (ctx.seed, i)
        s = Cli(ctx, seed, random.Random(seed).choice([60, 150, 300]), gen)
        try:
            r = s.run()
        except Bad as b:
            r = str(b)
        if isinstance(r, str):
            ctx.violation('orchestrator: ' + r, {'kind': 'cli', 'seed': seed, 'steps': s.steps, 'history': s.trace[-80:]})
        with ctx.lock:
            ctx.evaluations += 1
            ctx.distinct.add(json.dumps(s.trace, default=str))
        if i < 2:
            ctx.sample({'session': seed, 'steps': len(s.trace), 'first': [list(map(str, x)) for x in s.trace[:12]]})
    def read(i):
        seed = '%d/%d' % (ctx.seed, i)
        r = reader(ctx, seed)
        if r:
            ctx.violation(r, {'kind': 'read', 'seed': seed})
        with ctx.lock:
            ctx.evaluations += 1

    with ThreadPoolExecutor(7) as ex:
        if os.path.exists(os.path.join(build.REPO, 'experiments', 'orchestrator', 'read.sh')):
            list(ex.map(read, range(ctx.n(30, 300))))
        list(ex.map(one, range(ctx.n(40, 400))))
