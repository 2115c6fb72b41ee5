"""C21: runs the tree's worker daemons (experiments/daemon_*.sh) against a scripted
orchestrator.  Every command they call is a stand-in that asks this harness;
the harness plays the orchestrator and the experiment, and judges each call.
The daemons run as an unprivileged user in a scratch copy, and `kill` is a
function that only reaches the harness."""
import json, os, random, re, shutil, signal, socket, struct, subprocess, tempfile, threading, time
import build, deploy
from fw import Broken

TOOLS = ['curl', 'bazel', 'sleep', 'ps', 'pkill', 'killall', 'pgrep', 'wget', 'sudo', 'bazelisk']
STEP_LIMIT = 90.0       # seconds without any call from a daemon that has something to do

BASH_ENV = r'''
kill() {
  local a=() x
  for x in "$@"; do
    if [[ "$x" == %* ]]; then a+=( $(jobs -p "$x") ); else a+=( "$x" ); fi
  done
  "$VTOOL_DIR/vkill" "${a[@]}"
}
enable -n kill 2>/dev/null
'''


class Bad(Exception):
    pass


class Call:
    """one call of a stand-in"""

    def __init__(self, sock):
        self.s = sock
        n = struct.unpack('<I', self._get(4))[0]
        f = self._get(n).decode('utf8', 'surrogateescape').split('\0')
        self.name, self.cwd, self.pid, self.ppid = f[0], f[1], int(f[2]), int(f[3])
        self.args = f[4:-1]
        self.dead = False

    def _get(self, n):
        d = b''
        while len(d) < n:
            x = self.s.recv(n - len(d))
            if not x:
                raise EOFError
            d += x
        return d

    def frame(self, t, data=b''):
        if isinstance(data, str):
            data = data.encode('utf8', 'surrogateescape')
        try:
            self.s.sendall(t.encode() + struct.pack('<I', len(data)) + data)
            if t in 'OE':
                self._get(1)
        except (OSError, EOFError):
            self.dead = True

    def exit(self, code=0, out=b''):
        if out:
            self.frame('O', out)
        self.frame('X', str(code))

    def wait_end(self, t):
        """True when the process is gone"""
        self.s.settimeout(t)
        try:
            if self.s.recv(1) == b'':
                self.dead = True
        except socket.timeout:
            pass
        except OSError:
            self.dead = True
        self.s.settimeout(None)
        return self.dead


class Curl:
    """what a curl command line means"""

    def __init__(self, call):
        self.method, self.url, self.body, self.ctype, self.out, self.fail = None, None, None, None, None, False
        a = []
        for x in call.args:
            # -so FILE is -s -o FILE
            while re.match(r'-[a-zA-Z].', x) and x[1] not in 'HXdTomwuAe':
                a.append(x[:2])
                x = '-' + x[2:]
            if re.match(r'-[HXdTomwuA].', x):
                a.append(x[:2])
                x = x[2:]
            a.append(x)
        i = 0

        def val():
            nonlocal i
            i += 1
            return a[i] if i < len(a) else ''
        while i < len(a):
            x = a[i]
            v = None
            if x.startswith('--') and '=' in x:
                x, v = x.split('=', 1)
            if x in ('-H', '--header'):
                h = val()
                if h.lower().replace(' ', '').startswith('content-type:'):
                    self.ctype = h.split(':', 1)[1].strip()
            elif x in ('-X', '--request'):
                self.method = val()
            elif x in ('--data-binary', '-d', '--data', '--data-raw', '--data-ascii'):
                d = val()
                if d.startswith('@') and x != '--data-raw':
                    try:
                        with open(os.path.join(call.cwd, d[1:]), 'rb') as f:
                            b = f.read()
                    except OSError:
                        b = b''     # curl warns and sends nothing
                    if x != '--data-binary':
                        b = b.replace(b'\r', b'').replace(b'\n', b'')
                else:
                    b = d.encode('utf8', 'surrogateescape')
                self.body = (self.body or b'') + b
                self.ctype = self.ctype or 'application/x-www-form-urlencoded'
            elif x in ('-T', '--upload-file'):
                with open(os.path.join(call.cwd, val()), 'rb') as f:
                    self.body = f.read()
                self.method = self.method or 'PUT'
            elif x in ('-o', '--output'):
                o = v or val()
                self.out = None if o == '-' else os.path.join(call.cwd, o)
            elif x in ('-m', '--max-time', '--retry', '--connect-timeout', '--retry-delay', '-w', '--write-out', '-u', '-A'):
                val()
            elif x in ('--url',):
                self.url = v or val()
            elif x.startswith('-') and x != '-':
                pass
            else:
                self.url = x
            i += 1
        self.method = self.method or ('POST' if self.body is not None else 'GET')


def daemon_root(root, vtool):
    """a scratch copy of what the scripts need"""
    os.makedirs(root + '/bin')
    for d in ('experiments/checklist', 'experiments/sealpir', 'config'):
        os.makedirs(root + '/repo/' + d)
    src = os.path.join(build.REPO, 'experiments')
    for f in os.listdir(src):
        if f.endswith('.sh'):
            shutil.copy(os.path.join(src, f), root + '/repo/experiments/')
    for d in ('checklist', 'sealpir'):
        for f in os.listdir(os.path.join(src, d)):
            if f.endswith('.sh'):
                shutil.copy(os.path.join(src, d, f), root + '/repo/experiments/' + d)
    for t in TOOLS + ['vkill', 'kill']:
        shutil.copy(vtool, root + '/bin/' + t)
        os.chmod(root + '/bin/' + t, 0o755)
    with open(root + '/env.sh', 'w') as f:
        f.write(BASH_ENV)
    for d, ds, fs in os.walk(root):
        os.chmod(d, 0o777)
    for d, ds, fs in os.walk(root + '/repo'):
        for f in fs:
            os.chmod(os.path.join(d, f), 0o755)


def drop():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


# what else runs on a machine as README.md sets it up; numbers no process has
BYSTANDERS = {4194301: '/usr/sbin/sshd -D', 4194302: 'node main.js', 4194303: 'bash ./experiments/local.sh 2 1'}


def cmdline(kind, args):
    """the process an experiment shows up as"""
    a = ' '.join(args[args.index('--') + 1:]) if '--' in args else ''
    base = '/home/u/.cache/bazel/_bazel_u/0123/execroot/ws/bazel-out/k8-opt/bin/'
    return {'dppir': base + 'DPPIR/main ', 'checklist-server': base + 'external/checklist/cmd/rpc_server/rpc_server_/rpc_server ',
            'checklist-client': base + 'main_/main ', 'sealpir': base + 'sealpir '}[kind] + a


class Session:
    """one daemon, one scripted history"""

    def __init__(self, ctx, seed, kind, jobs, vtool, shared=None, half=0):
        self.ctx, self.seed, self.kind, self.njobs, self.vtool = ctx, seed, kind, jobs, vtool
        self.shared, self.half = shared, half     # two daemons in one directory, as local.sh starts them
        self.R = random.Random('daemon%s' % seed)
        self.lock = threading.RLock()
        self.cv = threading.Condition(self.lock)
        self.bad = None
        self.trace = []
        self.state = 'register'
        self.wid = str(self.R.choice([0, 1, 7, 12, 305]) + 17 * half)
        self.orch = self.R.choice(['127.0.0.1:8000', 'http://10.1.2.3:8000', 'http://orch.example:8000'])
        self.done_jobs = 0
        self.live = {}          # pid -> (call, kind, args)
        self.last = time.time()
        self.job = None
        self.stats = {'calls': 0, 'pings': 0, 'waits': 0, 'jobs': 0, 'uploads': 0, 'logs': 0, 'kills': 0, 'configs': 0, 'sleeps': 0}
        self.must_sleep = False
        self.calls = []

    def fail(self, msg):
        with self.cv:
            if self.bad is None:
                self.bad = msg
            self.cv.notify_all()

    # -- the orchestrator's side ------------------------------------------
    def role(self, R):
        # no two workers serve in the same role of one experiment
        return R.choice([0, 0, 1, 3, 10] if self.shared is None else [[0, 0, 3], [1, 10, 10]][self.half])

    def new_job(self):
        R = self.R
        j = {'n': self.done_jobs}
        k = R.random()
        if k < .6:
            j['kind'] = 'dppir'
            j['stage'] = R.choice(['all', 'online', 'offline'])
            if self.kind == 'server':
                j['party'], j['server'] = R.choice([0, 0, 1, 2, 11]), self.role(R)
                j['text'] = 'dppir %d %d %s' % (j['party'], j['server'], j['stage'])
                j['flags'] = {'role': 'party', 'stage': j['stage'], 'party_id': str(j['party']), 'server_id': str(j['server'])}
            else:
                j['server'], j['queries'] = self.role(R), R.choice([0, 1, 100, 100000000])
                j['text'] = 'dppir %d %d %s' % (j['server'], j['queries'], j['stage'])
                j['flags'] = {'role': 'client', 'stage': j['stage'], 'server_id': str(j['server']), 'queries': str(j['queries'])}
            # a configuration: binary, with zero bytes and newlines
            j['config'] = bytes(R.choice([0, 10, 13, 32, 255, R.randrange(256)]) for _ in range(R.choice([37, 200, 1500, 70000]))) + b'\x7f'
            if R.random() < .1:
                j['config'] = b'WAIT' + j['config']
            j['waits'] = R.choice([0, 0, 0, 1, 2, 4])
        elif k < .8:
            j['kind'] = 'checklist-' + self.kind
            pt = R.choice(['Punc', 'DPF'])
            if self.kind == 'server':
                port = 10000 + int(self.wid)
                size = R.choice([100, 2500000])
                j['text'] = 'checklist %s %d %d %s' % (self.wid, size, port, pt)
                j['argset'] = {'-numRows=%d' % size, '-rowLen=8', '-tls=0', '-p=%d' % port, '-pirType=%s' % pt}
                j['target'] = '@checklist//cmd/rpc_server'
            else:
                a, b, q = '10.0.0.1:10003', '10.0.0.2:10014', R.choice([1, 1000])
                j['text'] = 'checklist %s %s %d %s' % (a, b, q, pt)
                j['argset'] = {'-rowLen=8', '-tls=0', '-serverAddr=' + a, '-serverAddr2=' + b, '-pirType=' + pt, 'q%d' % q}
                j['target'] = '//:main'
            j['dir'] = 'experiments/checklist'
        elif k < .93 and self.kind == 'client':
            j['kind'] = 'sealpir'
            size, q = R.choice([100, 2500000]), R.choice([1, 1000])
            j['text'] = 'sealpir %d %d' % (size, q)
            j['argset'] = {'--table=%d' % size, '--queries=%d' % q}
            j['target'] = '//:sealpir'
            j['dir'] = 'experiments/sealpir'
        else:
            j['kind'] = 'invalid'
            j['text'] = R.choice(['unknown 1 2', 'dppir2 0 0 all'] + (['sealpir 100 1'] if self.kind == 'server' else []))
        j['end'] = R.choice(['exit', 'exit', 'exit', 'fail', 'kill', 'kill'])
        if j['kind'] == 'checklist-server':
            j['end'] = R.choice(['exit', 'kill', 'kill'])
        if j['kind'] == 'invalid':
            j['end'] = 'exit'
        j['polls'] = R.choice([0, 0, 1, 2, 4])      # shouldkill answered 0 before it ends
        j['logs'] = set(i for i in range(j['polls']) if R.random() < .35)
        j['polled'] = 0
        j['out'] = b''
        j['started'] = 0
        j['mark'] = b'out-%d-%d' % (self.seed if isinstance(self.seed, int) else 0, j['n'])
        return j

    def url(self, c):
        if not c.url or not c.url.startswith(self.orch + '/'):
            raise Bad('calls %r, which is not at the orchestrator %s' % (c.url, self.orch))
        parts = c.url[len(self.orch) + 1:].split('/')
        if len(parts) != 2:
            raise Bad('calls unknown address %r' % c.url)
        if parts[0] != 'giveip' and parts[1] != self.wid:
            raise Bad('speaks for worker %r, its own number is %s' % (parts[1], self.wid))
        return parts

    def on_curl(self, call):
        c = Curl(call)
        what, arg = self.url(c)
        reply = b''
        with self.cv:
            j = self.job
            if what in ('shouldkill', 'done') and self.state == 'launch':
                # the process was started in the background and may not have come up yet
                self.cv.wait_for(lambda: self.state != 'launch' or self.bad, 60)
            want = 'POST' if what in ('done', 'showlog') else 'GET'
            if c.method != want:
                raise Bad('%s with method %s' % (what, c.method))
            if what == 'giveip':
                if self.state != 'register':
                    raise Bad('registers again')
                if arg != self.kind:
                    raise Bad('a %s daemon registers as %r' % (self.kind, arg))
                self.state = 'idle'
                reply = self.wid.encode()
            elif what == 'ping':
                if self.state != 'idle':
                    raise Bad('asks for a job while %s' % self.state)
                if self.must_sleep:
                    raise Bad('asks for a job again without pausing after WAIT')
                left = [p for p, x in self.live.items() if not x[0].dead and not self.gone(x[0])]
                if left:
                    raise Bad('asks for a job while the process of the previous job is still running')
                self.stats['pings'] += 1
                if self.done_jobs >= self.njobs:
                    self.state = 'over'
                    self.cv.notify_all()
                    reply = b'WAIT'
                elif self.R.random() < .35:
                    self.stats['waits'] += 1
                    self.must_sleep = True
                    reply = b'WAIT'
                else:
                    self.job = j = self.new_job()
                    self.stats['jobs'] += 1
                    self.ctx.seen((self.kind, j['kind'], j['end'], j['polls'], j.get('waits', 0), len(j['logs']), j.get('stage')))
                    self.state = 'config' if j['kind'] == 'dppir' else 'launch'
                    if j['kind'] == 'invalid':
                        self.state = 'running'
                    reply = j['text'].encode()
            elif what == 'config':
                if self.state != 'config':
                    raise Bad('asks for a configuration while %s' % self.state)
                if self.must_sleep:
                    raise Bad('asks for the configuration again without pausing after WAIT')
                self.stats['configs'] += 1
                if j['waits'] > 0:
                    j['waits'] -= 1
                    self.must_sleep = True
                    reply = b'WAIT'
                else:
                    self.state = 'launch'
                    reply = j['config']
            elif what == 'shouldkill':
                if self.state != 'running':
                    raise Bad('asks whether to kill while %s' % self.state)
                i = j['polled']
                j['polled'] += 1
                if j.get('told'):
                    raise Bad('asks again whether to kill after it was told to')
                if i in j['logs']:
                    self.state = 'log'
                    j['logout'] = j['out']
                    reply = b'2\n'
                elif i >= j['polls'] and j['end'] == 'kill':
                    j['told'] = True
                    self.stats['kills'] += 1
                    reply = b'1\n'
                else:
                    reply = b'0\n'
                self.cv.notify_all()
            elif what == 'showlog':
                if self.state != 'log':
                    raise Bad('uploads a log nobody asked for')
                if c.ctype != 'text/plain':
                    raise Bad('uploads the log as %s, which the orchestrator does not read' % c.ctype)
                self.state = 'running'
                self.stats['logs'] += 1
                if j['kind'] != 'invalid' and j['logout'] not in (c.body or b''):
                    raise Bad('uploads a log that is not the output of the running job (%r lacks %r)' % (c.body[-80:], j['logout'][-80:]))
                self.foreign(c.body)
            elif what == 'done':
                if self.state == 'log':
                    raise Bad('reports the end of the job instead of the log it was asked for')
                if self.state != 'running':
                    raise Bad('reports the end of a job while %s' % self.state)
                if c.ctype != 'text/plain':
                    raise Bad('uploads the result as %s, which the orchestrator does not read' % c.ctype)
                if j['kind'] == 'invalid':
                    if b'nvalid' not in (c.body or b''):
                        raise Bad('the result of an unknown job does not say so')
                else:
                    if not j['started']:
                        raise Bad('reports the end of a job it never started')
                    if not j.get('told'):
                        if not j.get('ended'):
                            raise Bad('reports the end of a job that is still running')
                    elif b'illed' not in c.body:
                        raise Bad('the result of a killed job does not say that it was killed')
                    if j['out'] not in c.body:
                        raise Bad('uploads a result that is not the output of the job (%r lacks %r)' % (c.body[-80:], j['out'][-80:]))
                    if not j.get('told') and b'illed by' in c.body.replace(j['out'], b''):
                        raise Bad('claims that the job was killed')
                self.foreign(c.body)
                self.stats['uploads'] += 1
                self.done_jobs += 1
                self.state = 'idle'
                self.job = None
                j['over'] = True
                self.cv.notify_all()
            else:
                raise Bad('calls unknown address %r' % c.url)
        if c.out:
            with open(c.out, 'wb') as f:
                f.write(reply)
            reply = b''
        call.exit(0, reply)

    def foreign(self, body):
        for w, m in re.findall(rb'out-(\d+)-(\d+)', body or b''):
            if self.shared is not None and int(m) < 99999 and int(w) != self.seed:
                raise Bad('uploads the output of the job of another worker')
            if int(m) != self.job['n']:
                raise Bad('uploads the output of an earlier job')

    def gone(self, call):
        """the process of a stand-in has ended (checked against the system)"""
        if call.dead:
            return True
        t = time.time()
        while time.time() - t < 20:
            try:
                with open('/proc/%d/stat' % call.pid) as f:
                    st = f.read().rsplit(')', 1)[1].split()[0]
                if st in 'ZX':
                    break
                if not call.killed:
                    return False
            except OSError:
                break
            time.sleep(.01)
        else:
            return False
        call.dead = True
        return True

    def on_bazel(self, call):
        with self.cv:
            j = self.job
            if self.state != 'launch':
                raise Bad('starts a process while %s: bazel %s' % (self.state, ' '.join(call.args)[:200]))
            a = call.args
            if not a or a[0] != 'run' or '--' not in a:
                raise Bad('unexpected bazel %s' % ' '.join(a)[:200])
            k = a.index('--')
            pre, post = a[1:k], a[k + 1:]
            rel = os.path.relpath(call.cwd, self.root + '/repo')
            opt = '--config=opt' in pre or any(x == '-c' and y == 'opt' for x, y in zip(pre, pre[1:])) or '--compilation_mode=opt' in pre
            if not opt:
                raise Bad('runs an experiment without optimisation: bazel %s' % ' '.join(a)[:200])
            if j['kind'] == 'dppir':
                if '//DPPIR:main' not in pre:
                    raise Bad('runs %s instead of //DPPIR:main' % pre)
                f = {}
                it = iter(post)
                for x in it:
                    x = x.lstrip('-')
                    n, v = x.split('=', 1) if '=' in x else (x, next(it, ''))
                    f[n] = v
                cfg = f.pop('config', None)
                if f != j['flags']:
                    raise Bad('job %r is run with %s' % (j['text'], f))
                if not cfg or not cfg.startswith('config/') and not cfg.startswith('/'):
                    raise Bad('the configuration %r is not below config/' % cfg)
                try:
                    with open(os.path.join(self.root, 'repo', cfg), 'rb') as fh:
                        d = fh.read()
                except OSError:
                    raise Bad('runs with a configuration file that does not exist: %s' % cfg)
                if d != j['config']:
                    raise Bad('runs with a configuration that differs from the one it was sent (%d bytes instead of %d)' % (len(d), len(j['config'])))
            else:
                if j['target'] not in pre:
                    raise Bad('runs %s instead of %s' % (pre, j['target']))
                if rel != j['dir']:
                    raise Bad('runs %s in %s' % (j['target'], rel))
                if set(post) != j['argset'] or len(post) != len(j['argset']):
                    raise Bad('job %r is run with %s' % (j['text'], post))
            j['started'] += 1
            self.state = 'running'
            self.cv.notify_all()
            call.killed = False
            self.live[call.pid] = (call, j['kind'], a)
        # play the experiment
        n = 0
        limit = time.time() + 300
        while True:
            with self.cv:
                p = j['polled']
                over = j.get('over') or self.bad or self.state == 'over'
                told = j.get('told')
            if over and not told:
                break
            if call.dead or call.wait_end(.01):
                break
            if not told and n <= p and n < 50:
                txt = b'%s part %d\n' % (j['mark'], n) + b'x' * self.R.choice([0, 10]) + b'\n\n'
                with self.cv:
                    if not j.get('told'):
                        call.frame('O' if n % 3 else 'E', txt)
                        if not call.dead:
                            j['out'] += txt
                n += 1
            if not told and j['end'] in ('exit', 'fail') and p >= j['polls']:
                with self.cv:
                    if self.state == 'running':
                        j['ended'] = True
                        call.exit(0 if j['end'] == 'exit' else 3)
                        call.wait_end(30)
                        call.dead = True
                        break
            if time.time() > limit:
                break
        call.dead = call.dead or call.wait_end(.01)

    def on_kill(self, call):
        """kill of any spelling: reaches only processes of this session"""
        pids = []
        sig = signal.SIGTERM
        a = call.args
        i = 0
        while i < len(a):
            x = a[i]
            if x in ('-s', '-n'):
                i += 1
                x = '-' + a[i] if i < len(a) else ''
            if x.startswith('-') and not pids:
                n = x[1:].upper().replace('SIG', '')
                sig = int(n) if n.isdigit() else getattr(signal, 'SIG' + n, signal.SIGTERM)
            elif x.isdigit():
                pids.append(int(x))
            i += 1
        rc = 0 if pids else 1
        if sig == 0:        # asks whether the process exists
            for p in pids:
                rc |= 0 if self.exists(p) else 1
            call.exit(rc)
            return
        with self.cv:
            j = self.job
            for p in pids:
                if p in BYSTANDERS:
                    raise Bad('kills %r, which is not its job' % BYSTANDERS[p])
                if p in self.live and not (j and j.get('told')):
                    if not self.gone(self.live[p][0]):
                        raise Bad('kills the running job without being told to')
                rc |= self.send_signal(p, sig)
        call.exit(rc)

    def exists(self, p):
        try:
            with open('/proc/%d/stat' % p) as f:
                return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
        except (OSError, IndexError):
            return False

    def send_signal(self, p, sig):
        if p == os.getpid() or p not in self.family():
            return 1
        if p in self.live and sig:
            self.live[p][0].killed = True
        try:
            os.kill(p, sig)
        except OSError:
            return 1
        return 0

    def family(self):
        """processes of the daemon's session (it was started as a session leader)"""
        out = set()
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    with open('/proc/%s/stat' % d) as f:
                        if int(f.read().rsplit(')', 1)[1].split()[3]) == self.p.pid:
                            out.add(int(d))
                except (OSError, IndexError, ValueError):
                    pass
        return out

    def on_ps(self, call):
        a = call.args
        one = None
        for i, x in enumerate(a):
            if x in ('-p', '--pid') and i + 1 < len(a):
                one = a[i + 1]
            elif re.match(r'--pid=\d|-p\d', x):
                one = x.split('=')[-1].lstrip('-p')
        if one is not None:
            live = [p for p in re.split('[ ,]+', one) if p.isdigit() and self.exists(int(p))]
            call.exit(0 if live else 1, ''.join('%7s ? 00:00:00 bazel\n' % p for p in ['PID'] + live).encode())
            return
        rows = [(self.p.pid, 'bash ./experiments/daemon_%s.sh' % self.kind)] + [(n, t) for n, t in sorted(BYSTANDERS.items())]
        with self.cv:
            for pid, (c, kind, b) in self.live.items():
                if not c.dead:
                    rows.append((pid, cmdline(kind, b)))
        o = [x for x in a if re.search(r'\bpid\b *[,=]', x)]
        if o:               # columns chosen by the caller, the number first
            out = ['%7s %s' % (p, t) for p, t in [('PID', 'CMD')] + rows]
        else:               # the number is the second column of aux and of -ef
            out = ['USER         PID %CPU %MEM    VSZ   RSS TTY      STAT START   TIME COMMAND']
            out += ['nobody   %7d 99.0  0.0   8000  3000 ?        R    10:00   0:00 %s' % r for r in rows]
        call.exit(0, ('\n'.join(out) + '\n').encode())

    def on_pkill(self, call):
        pat = [x for x in call.args if not x.startswith('-')]
        sig = signal.SIGKILL if any(x in ('-9', '-KILL', '-SIGKILL') for x in call.args) else signal.SIGTERM
        hit = []
        with self.cv:
            for pid, (c, kind, a) in list(self.live.items()):
                if pat and call.name != 'pgrep' and [t for t in BYSTANDERS.values() if re.search(pat[-1], t)]:
                    raise Bad('kills %r, which is not its job' % [t for t in BYSTANDERS.values() if re.search(pat[-1], t)][0])
                if not c.dead and pat and re.search(pat[-1], cmdline(kind, a)):
                    hit.append(pid)
                    if call.name != 'pgrep':
                        if not (self.job and self.job.get('told')):
                            raise Bad('kills the running job without being told to')
                        self.send_signal(pid, sig)
        if call.name == 'pgrep':
            hit = [n for n, t in BYSTANDERS.items() if pat and re.search(pat[-1], t)] + hit
        call.exit(0 if hit else 1, ('\n'.join(map(str, hit)) + '\n').encode() if call.name == 'pgrep' else b'')

    def daemon_setup(self):
        pass

    # -- plumbing ------------------------------------------------------------
    def serve(self, s):
        try:
            call = Call(s)
        except (EOFError, OSError, ValueError):
            s.close()
            return
        with self.lock:
            self.last = time.time()
            self.stats['calls'] += 1
            self.trace.append('%s %s' % (call.name, ' '.join(call.args)[:160]))
            over = self.state == 'over' or self.bad
        try:
            if over:
                time.sleep(.2)
                call.exit(1)
            elif call.name == 'curl':
                self.on_curl(call)
            elif call.name == 'bazel':
                self.on_bazel(call)
            elif call.name == 'sleep':
                try:
                    t = sum(float(x.rstrip('smh')) for x in call.args)
                except ValueError:
                    t = 0
                with self.lock:
                    self.stats['sleeps'] += 1
                    if t >= .5:
                        self.must_sleep = False
                time.sleep(min(.02, max(0, t)))
                call.exit(0)
            elif call.name == 'ps':
                self.on_ps(call)
            elif call.name in ('kill', 'vkill'):
                self.on_kill(call)
            elif call.name in ('pkill', 'killall', 'pgrep'):
                self.on_pkill(call)
            else:
                raise Bad('calls %s' % call.name)
        except Bad as e:
            self.fail('the %s daemon %s' % (self.kind, e))
            call.exit(1)
        finally:
            s.close()

    def run(self):
        base = self.shared or tempfile.mkdtemp(prefix='dppirdaemon.')
        self.root = base + '/w'
        if self.shared is None:
            os.makedirs(self.root)
            os.chmod(base, 0o755)
        srv = socket.socket(socket.AF_UNIX)
        self.p = None
        stop = threading.Event()
        try:
            if self.shared is None:
                with build.XLOCK:
                    daemon_root(self.root, self.vtool)
            self.daemon_setup()
            path = self.root + '/s%d' % self.half
            srv.bind(path)
            os.chmod(path, 0o777)
            srv.listen(64)
            srv.settimeout(.2)

            def loop():
                while not stop.is_set():
                    try:
                        s, _ = srv.accept()
                    except socket.timeout:
                        continue
                    except OSError:
                        return
                    threading.Thread(target=self.serve, args=(s,), daemon=True).start()
            env = {'PATH': self.root + '/bin:/usr/bin:/bin', 'VTOOL_SOCK': path, 'VTOOL_DIR': self.root + '/bin',
                   'BASH_ENV': self.root + '/env.sh', 'HOME': self.root, 'TMPDIR': self.root, 'LC_ALL': 'C'}
            # what an earlier run may have left behind
            if self.shared is None and self.R.random() < .5:
                for f in ('config/party-0-0.txt', 'config/client-0.txt', 'DPPIR-party-0-0.log', 'DPPIR-client-0.log', 'sealpir.log', 'checklist-client.log',
                          'sealpir-%s.log' % self.wid, 'checklist-client-%s.log' % self.wid):
                    with open(self.root + '/repo/' + f, 'wb') as fh:
                        fh.write(self.R.choice([b'WAIT', b'out-0-99999 old\n']))
                    os.chmod(self.root + '/repo/' + f, 0o666)
            out = open(self.root + '/daemon%d.out' % self.half, 'wb')
            self.p = subprocess.Popen(['/bin/bash', './experiments/daemon_%s.sh' % self.kind, self.orch], cwd=self.root + '/repo',
                                      env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True,
                                      preexec_fn=drop if os.geteuid() == 0 else None)
            out.close()
            threading.Thread(target=loop, daemon=True).start()
            with self.cv:
                while self.bad is None and self.state != 'over':
                    self.cv.wait(.2)
                    if self.bad is None and self.state != 'over':
                        if self.p.poll() is not None:
                            self.bad = 'the %s daemon ends (%d) while %s' % (self.kind, self.p.returncode, self.state)
                        elif time.time() - self.last > STEP_LIMIT:
                            self.bad = 'the %s daemon does nothing any more while %s' % (self.kind, self.state)
            return self.bad
        finally:
            stop.set()
            if self.p is not None:
                for _ in range(50):
                    f = self.family()
                    for q in f | {self.p.pid}:
                        try:
                            os.kill(q, signal.SIGKILL)
                        except OSError:
                            pass
                    self.p.poll()
                    if not f:
                        break
                    time.sleep(.02)
                self.p.wait()
            srv.close()
            if self.shared is None:
                shutil.rmtree(base, ignore_errors=True)


def pair(ctx, seed, kinds, jobs, vtool):
    """two daemons in one directory: what one uploads is never touched by the other"""
    base = tempfile.mkdtemp(prefix='dppirdaemon.')
    try:
        os.makedirs(base + '/w')
        os.chmod(base, 0o755)
        with build.XLOCK:
            daemon_root(base + '/w', vtool)
        ss = [Session(ctx, seed * 2 + h, k, jobs, vtool, base, h) for h, k in enumerate(kinds)]
        ths = [threading.Thread(target=lambda s=s: s.run()) for s in ss]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        bad = [s.bad for s in ss if s.bad]
        return ('two daemons in one directory: %s' % bad[0]) if bad else None, ss
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------------------
# the real orchestrator, the real daemons and the real binaries together

class FleetDaemon(Session):
    def __init__(self, fleet, kind, ip, i):
        Session.__init__(self, fleet.ctx, i, kind, 0, fleet.vtool)
        self.fleet, self.ip = fleet, ip
        self.orch = '127.0.0.1:8000'
        self.uploads = []
        self.ready = threading.Event()

    def on_curl(self, call):
        c = Curl(call)
        if not c.url or not c.url.startswith(self.orch + '/'):
            raise Bad('calls %r, which is not at the orchestrator' % c.url)
        if c.body is not None and c.ctype != 'text/plain':
            raise Bad('uploads %s, which the orchestrator does not read' % c.ctype)
        path = c.url[len(self.orch):]
        with self.fleet.olock:
            if path.startswith('/done/'):
                self.uploads.append(c.body)
            st, b = self.fleet.o.http(c.method, path, self.ip, None if c.body is None else c.body.decode('utf8', 'replace'))
            self.stats['calls'] += 1
        if st != 200:
            raise Bad('%s %s is answered %d' % (c.method, path, st))
        if path.startswith('/ping/'):
            self.ready.set()
        if c.out:
            with open(c.out, 'wb') as f:
                f.write(b)
            b = b''
        call.exit(0, b)

    def on_bazel(self, call):
        a = call.args
        if '//DPPIR:main' not in a or '--' not in a:
            raise Bad('unexpected bazel %s' % ' '.join(a)[:200])
        self.stats['jobs'] += 1
        call.killed = False
        with self.cv:
            self.live[call.pid] = (call, 'dppir', a)
        # bazel run starts the binary in its own tree, where config/ is visible
        call.frame('R', '\0'.join([self.root + '/main'] + a[a.index('--') + 1:]) + '\0')
        while not call.wait_end(.5) and not self.bad and self.state != 'over':
            pass

    def daemon_setup(self):
        with build.XLOCK:
            shutil.copy(self.fleet.main, self.root + '/main')
            os.chmod(self.root + '/main', 0o755)


class Fleet:
    def __init__(self, ctx, seed, vtool, bins):
        self.ctx, self.seed, self.vtool, self.main, self.gen = ctx, seed, vtool, bins['main'], bins['gen_config']
        self.R = random.Random('fleet%d' % seed)
        self.olock = threading.RLock()

    def run(self):
        import orch, props_net
        R = self.R
        root = os.path.join(self.ctx.workdir, 'fleet%d' % self.seed)
        os.makedirs(root)
        ds, ths, res = [], [], {}
        try:
            self.o = orch.Orch(root, self.gen)
        except orch.Bad as e:
            shutil.rmtree(root, ignore_errors=True)
            return 'orchestrator: %s' % e
        try:
            P, S = R.choice([(2, 1), (3, 1), (2, 2), (3, 2)])
            ip = lambda: '127.%d.%d.%d' % (R.randrange(1, 250), R.randrange(250), R.randrange(1, 250))
            for i in range(P * S + S):
                d = FleetDaemon(self, 'server' if i < P * S else 'client', ip(), i)
                ds.append(d)
                th = threading.Thread(target=lambda d=d: res.__setitem__(d, d.run()), daemon=True)
                ths.append(th)
                th.start()
                if not d.ready.wait(60) and not d.bad:
                    return 'a %s daemon never asks for a job' % d.kind
            for k in range(2):
                mode = R.choice(['all', 'all', 'online', 'offline'])
                D, q = R.choice([7, 20]), R.choice([1, 10, 31]) * S
                eps, delta = R.choice(['1', '2']), R.choice(['0.5', '0.25'])
                name = 'run%d-%d-%d-%d-%d-%s-%s' % (k, D, P, S, q, eps, delta)
                for d in ds:
                    d.uploads = []
                with self.olock:
                    o = self.o.cmd('new dppir', ['run%d' % k, mode, str(D), str(P), str(S), str(q), eps, delta])
                t = time.time()
                while True:
                    bad = next((d.bad for d in ds if d.bad), None)
                    if bad:
                        return bad
                    with self.olock:
                        l = self.o.cmd('experiments')
                    m = re.search(re.escape(name) + r'\), status: (.*)', l)
                    if m and m.group(1).strip() == 'done':
                        break
                    if time.time() - t > 150:
                        up = [(d.kind, len(d.uploads), (d.uploads or [b''])[-1][-160:]) for d in ds]
                        return 'experiment %s (%s) is not done although all workers are there: %s; uploads %s' % (name, mode, m and m.group(1), up)
                    time.sleep(.1)
                out = os.path.join(self.o.app, 'outputs', name)
                want = {'party-%d-%d.log' % (p, s) for p in range(P) for s in range(S)} | {'client-%d.log' % s for s in range(S)}
                got = set(os.listdir(out))
                if got != want:
                    return 'experiment %s leaves %s' % (name, sorted(got))
                bodies = []
                for d in ds:
                    if len(d.uploads) != 1:
                        return 'a worker uploads %d results for one experiment' % len(d.uploads)
                    bodies.append(d.uploads[0].decode('utf8', 'replace'))
                for f in sorted(want):
                    b = open(os.path.join(out, f), errors='replace').read()
                    if b not in bodies:
                        return '%s/%s is not what a worker uploaded' % (name, f)
                    bodies.remove(b)
                    if f.startswith('party-'):
                        p, s = map(int, f[6:-4].split('-'))
                        if p < P - 1:
                            on, off = len(props_net.ON_RE.findall(b)), len(props_net.OFF_RE.findall(b))
                            if on != (mode != 'offline') or off != (mode != 'online'):
                                return '%s/%s (%s) holds %d online and %d offline times: %r' % (name, f, mode, on, off, b[-300:])
                    if 'ssertion' in b or 'Sanitizer' in b or 'runtime error' in b:
                        return '%s/%s shows a failure: %s' % (name, f, b[-300:])
                self.ctx.count(fleet_experiments=1, fleet_logs=len(want), fleet_requests=self.o.nid)
                self.ctx.seen(('fleet', P, S, mode, D, q))
            return None
        except orch.Bad as e:
            return 'orchestrator: %s' % e
        finally:
            for d in ds:
                with d.cv:
                    d.state = 'over'
                    d.cv.notify_all()
            for th in ths:
                th.join(30)
            self.o.close()
            shutil.rmtree(root, ignore_errors=True)


class Local:
    """experiments/local.sh in a scratch copy with recorders in place of the daemons and of bazel"""
    def __init__(self, ctx, seed):
        self.root = tempfile.mkdtemp(prefix='local.', dir=ctx.workdir)
        self.R = random.Random('local/%s' % seed)
        self.log = self.root + '/log'

    def script(self, path, text):
        with build.XLOCK, open(path, 'w') as f:
            f.write('#!/bin/bash\n' + text)
        os.chmod(path, 0o755)

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.root, ignore_errors=True)

    def _run(self):
        R = self.R
        os.makedirs(self.root + '/bin')
        os.makedirs(self.root + '/repo/experiments')
        open(self.log, 'w').close()
        shutil.copy(os.path.join(build.REPO, 'experiments', 'local.sh'), self.root + '/repo/experiments/')
        for n in ('bazel', 'bazelisk'):
            self.script(self.root + '/bin/' + n, 'echo "bazel $*" >> %s\n' % self.log)
        for n in ('kill', 'ps', 'pkill', 'killall'):
            self.script(self.root + '/bin/' + n, 'echo "%s $*" >> %s\n' % (n, self.log))
        with open(self.root + '/env', 'w') as f:
            f.write('kill() { echo "kill $*" >> %s; }\nenable -n kill 2>/dev/null\n' % self.log)
        for k in ('server', 'client'):
            self.script(self.root + '/repo/experiments/daemon_%s.sh' % k,
                        'echo "start %s $1 $PWD" >> %s\necho out-%s\n/bin/sleep 0.%d\necho "end %s" >> %s\n' % (k, self.log, k, R.randrange(1, 6), k, self.log))
        s, c = R.choice([0, 1, 1, 2, 3, 8]), R.choice([0, 1, 1, 2, 4])
        args = [str(s), str(c)]
        if R.random() < .25:
            args = args[:R.randrange(2)]
            s = c = 0
        p = subprocess.run(['bash', './experiments/local.sh'] + args, cwd=self.root + '/repo', capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PATH=self.root + '/bin:' + os.environ['PATH'], BASH_ENV=self.root + '/env'))
        L = open(self.log).read().splitlines()
        st = [l.split()[1:] for l in L if l.startswith('start')]
        for k, n in (('server', s), ('client', c)):
            got = [x for x in st if x[0] == k]
            if len(got) != n:
                return 'local.sh %s starts %d %s daemons' % (' '.join(args), len(got), k)
            for x in got:
                a = x[1] if len(x) > 1 else ''
                if re.sub('^http://', '', a).rstrip('/') not in ('127.0.0.1:8000', 'localhost:8000'):
                    return 'local.sh starts a daemon with the orchestrator %r' % a
                if x[2:] != [os.path.realpath(self.root + '/repo')]:
                    return 'local.sh starts a daemon elsewhere: %s' % x
        if len([l for l in L if l.startswith('end')]) != s + c:
            return 'local.sh ends before its daemons'
        if any(l.startswith(('kill', 'pkill')) for l in L):
            return 'local.sh kills without being interrupted'
        if s + c:
            first = min(i for i, l in enumerate(L) if l.startswith('start'))
            built = ' '.join(l for l in L[:first] if l.startswith('bazel'))
            if '//DPPIR:main' not in built and '...' not in built:
                return 'local.sh starts daemons before the programs are built'
        return None


class Example:
    """example.sh in a scratch copy; bazel is a stand-in that runs the binary built from the tree"""
    def __init__(self, ctx, seed, bins):
        self.root = tempfile.mkdtemp(prefix='example.', dir=ctx.workdir)
        self.n = random.Random('example/%s' % seed).choice([0, 1, 3, 17, 100, 250])
        self.bins = bins

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.root, ignore_errors=True)

    def _run(self):
        os.makedirs(self.root + '/bin')
        os.makedirs(self.root + '/repo/config')
        shutil.copy(os.path.join(build.REPO, 'example.sh'), self.root + '/repo/')
        shutil.copy(os.path.join(build.REPO, 'config', 'example.txt'), self.root + '/repo/config/')
        log = self.root + '/log'
        with open(self.root + '/bin/bazel', 'w') as f:
            f.write('#!/bin/bash\n[[ " $* " == *" //DPPIR:main "* ]] || { echo "no $*" >> %s; echo "no such target $*" >&2; exit 1; }\n'
                    'a="$*"\nwhile [ $# -gt 0 ] && [ "$1" != -- ]; do shift; done; shift\n%s "$@"\nrc=$?\necho "$rc $*" >> %s\nexit $rc\n' % (log, self.bins['main'], log))
        os.chmod(self.root + '/bin/bazel', 0o755)
        open(log, 'w').close()
        p = subprocess.Popen(['bash', './example.sh', str(self.n)], cwd=self.root + '/repo', stdout=open(self.root + '/out', 'wb'), stderr=subprocess.STDOUT, start_new_session=True,
                             stdin=subprocess.DEVNULL, env=dict(os.environ, PATH=self.root + '/bin:' + os.environ['PATH'], **deploy.SAN_ENV))
        end = time.time() + 90
        try:
            while time.time() < end and (p.poll() is None or len(open(log).read().splitlines()) < 3):
                time.sleep(.1)
                if p.poll() is not None and 'no ' in open(log).read():
                    break
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        L = open(log).read().splitlines()
        out = open(self.root + '/out', errors='replace').read()
        for x in ('party-0.log', 'party-1.log'):
            if os.path.exists(self.root + '/repo/' + x):
                out += open(self.root + '/repo/' + x, errors='replace').read()
        if 'already in use' in out:
            return 'already in use'
        if any(l.startswith('no ') for l in L):
            return 'example.sh runs a target that does not exist: %s' % [l for l in L if l.startswith('no ')][0][3:]
        if len(L) != 3 or not all(l.startswith('0 ') for l in L):
            return 'example.sh %d: processes end with %r' % (self.n, L)
        roles = sorted(re.sub(r'.*--role=(\w+).*', r'\1', l) for l in L)
        if roles != ['client', 'party', 'party']:
            return 'example.sh runs %r' % roles
        c = [l for l in L if '--role=client' in l][0]
        if '--queries=%d' % self.n not in c.split():
            return 'example.sh %d runs the client with %s' % (self.n, c)
        return None


def c21(ctx):
    from concurrent.futures import ThreadPoolExecutor
    ctx.rule = ('histories of one worker daemon (server or client): random WAITs, jobs of every type with random parameters and binary configurations, '
                'log requests, kill orders, failing and instant jobs; every command the daemon issues is judged by a state machine; '
                'and whole experiments: the real orchestrator, the real daemons and the real binaries together, judged by the logs they leave; '
                'distinct: (daemon, job type, way it ended, polls, WAITs, log requests, stage)')
    ctx.assume = ['the orchestrator answers every request (its behaviour is C19)', 'curl, bazel, sleep, ps and kill are stand-ins with the documented meaning of their options']
    b = build.Builder()
    try:
        vtool = b.tool('vtool')
    finally:
        b.close()

    def one(i):
        if len(ctx.viol) > 1 or ctx.left() < 0:
            return
        seed = ctx.seed * 100000 + i
        s = Session(ctx, seed, ['server', 'client'][i % 2], random.Random(seed).choice([3, 6, 9]), vtool)
        r = s.run()
        with ctx.lock:
            ctx.evaluations += 1
            for k, v in s.stats.items():
                ctx.stats[k] += v
        if r:
            ctx.violation(r, {'kind': 'daemon', 'seed': seed, 'daemon': s.kind, 'jobs': s.njobs, 'history': s.trace[-60:]})
        elif i < 4:
            ctx.sample({'session': seed, 'daemon': s.kind, 'first': s.trace[:14]})
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(ctx.n(28, 240))))

    def two(i):
        if len(ctx.viol) > 1 or ctx.left() < 0:
            return
        seed = ctx.seed * 100000 + 50000 + i
        kinds = [('client', 'client'), ('server', 'server'), ('client', 'server')][i % 3]
        jobs = random.Random(seed).choice([4, 6])
        r, ss = pair(ctx, seed, kinds, jobs, vtool)
        with ctx.lock:
            ctx.evaluations += 1
            ctx.stats['pairs'] += 1
            for s in ss:
                for k, v in s.stats.items():
                    ctx.stats[k] += v
        if r:
            ctx.violation(r, {'kind': 'daemonpair', 'seed': seed, 'kinds': list(kinds), 'jobs': jobs, 'history': [s.trace[-40:] for s in ss]})
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(two, range(ctx.n(12, 90))))
    for i in range(ctx.n(12, 100)):
        seed = '%d/%d' % (ctx.seed, i)
        r = Local(ctx, seed).run()
        ctx.evaluations += 1
        ctx.stats['local_runs'] += 1
        if r:
            ctx.violation(r, {'kind': 'local', 'seed': seed})
            break
    bins = ctx.bins('san')
    for i in range(ctx.n(2, 6)):
        if ctx.viol or ctx.left() < 100:
            break
        seed = '%d/%d' % (ctx.seed, i)
        r = Example(ctx, seed, bins).run()
        if r == 'already in use':
            ctx.note('a port of the shipped example is taken on this machine; run skipped')
            continue
        ctx.evaluations += 1
        ctx.stats['example_runs'] += 1
        if r:
            ctx.violation(r, {'kind': 'example', 'seed': seed})
    for i in range(ctx.n(3, 25)):
        if ctx.viol or ctx.left() < 60:
            break
        seed = ctx.seed * 1000 + i
        r = Fleet(ctx, seed, vtool, bins).run()
        if r and ('already in use' in r or 'bind' in r):
            r = Fleet(ctx, seed, vtool, bins).run()
        ctx.evaluations += 1
        if r:
            ctx.violation(r, {'kind': 'fleet', 'seed': seed})
