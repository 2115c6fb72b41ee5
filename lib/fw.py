"""Check context: builds, runs deployments / unit monitors, judges, writes
evidence, replays and VIOLATION lines."""
import collections, json, os, random, re, subprocess, sys, tempfile, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor
import build, deploy

VERIF = build.VERIF
REPO = build.REPO


class Broken(Exception):
    """the machinery (or the tree's build) cannot give an answer"""


class Stop(Exception):
    """enough violations seen"""


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.viol = []              # (what, replay dict)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = collections.Counter()
        self.notes = []
        self.rule = ''
        self.assume = []
        self._bins = {}
        self._tool = None
        self.lock = threading.Lock()
        self.thorough = tier == 'thorough'
        self.rnd = random.Random('%s/%s/%d' % (prop, tier, seed))
        self.soft = 560.0 if self.thorough else 300.0
        self.workdir = tempfile.mkdtemp(prefix='dppirverif.%s.' % prop)
        self.inconclusive = 0

    # -- budgets -----------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    def left(self):
        return self.soft - self.elapsed()

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    # -- builds ------------------------------------------------------------
    def bins(self, variant):
        with self.lock:
            if variant not in self._bins:
                b = build.Builder()
                try:
                    self._bins[variant] = b.repo_bins(variant)
                except build.BuildError as e:
                    raise Broken(str(e))
                finally:
                    b.close()
            return self._bins[variant]

    def tool(self):
        with self.lock:
            if self._tool is None:
                b = build.Builder()
                try:
                    self._tool = b.tool('tracecheck')
                finally:
                    b.close()
            return self._tool

    # -- recording ---------------------------------------------------------
    def violation(self, what, replay):
        with self.lock:
            self.viol.append((what, replay))
        print('  ! %s' % what[:600])

    def sample(self, x, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(x)

    def seen(self, key):
        with self.lock:
            self.distinct.add(key)

    def count(self, **k):
        with self.lock:
            for a, b in k.items():
                self.stats[a] += b

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)

    # -- deployments -------------------------------------------------------
    def judge_benign(self, r, cats):
        """violations of a benign deployment, as messages"""
        out = []
        sp = r.spec
        for n, rep in r.sanitizer():
            out.append('%s: memory/UB report: %s' % (n, rep))
        if r.hang:
            out.append('deployment does not terminate: ' + r.hang)
        bad = {n: c for n, c in r.rc.items() if c != 0 and n not in r.killed}
        if bad and not out:
            n = sorted(bad)[0]
            # the first process to fail is usually the one with an assertion text
            for m in sorted(bad):
                if 'ssert' in r.err.get(m, '') or bad[m] in (-6, 97):
                    n = m
                    break
            e = r.err.get(n, '').strip().splitlines()
            out.append('benign deployment fails: %s ends with %d (%s)' % (n, bad[n], (e[-1] if e else '')[:200]))
        for cat, msg in r.viol:
            if cats is None or cat in cats:
                out.append('%s: %s' % (cat, msg))
        return out

    def retryable(self, r):
        if r.inconclusive:
            return True
        for n, c in r.rc.items():
            if c == -9 and n not in r.killed and not r.spec.kills():
                return True     # ended from outside (memory)
            if c == 96:
                return True
        return False

    def run_one(self, spec):
        bins, tool = self.bins(spec.variant), self.tool()
        r = None
        for _ in range(3):
            r = deploy.run(spec, bins, tool, workroot=self.workdir)
            if not self.retryable(r):
                return r
        r.inconclusive = r.inconclusive or 'process ended from outside'
        return r

    def deploys(self, specs, cats, judge=None, workers=6, nontrivial=None, stop_after=2, key=None):
        """run the specs, judge each; stops after stop_after violating runs"""
        specs = list(specs)
        if not specs:
            return []
        for v in {s.variant for s in specs}:
            self.bins(v)
        self.tool()
        stop = threading.Event()
        res = []
        nbad = [0]

        def one(sp):
            if stop.is_set() or self.left() < 0:
                return None
            r = self.run_one(sp)
            if r.inconclusive:
                with self.lock:
                    self.inconclusive += 1
                return r
            msgs = judge(r) if judge else self.judge_benign(r, cats)
            with self.lock:
                self.evaluations += 1
                for k, v in r.stats.items():
                    if not k.startswith('rows_hit') and not k.startswith('noise_sum'):
                        self.stats[k] += v
                self.stats['processes'] += len(r.rc)
                if nontrivial is None or nontrivial(r):
                    self.distinct.add(key(r) if key else (r.fingerprint or json.dumps(sp.brief(), sort_keys=True)))
            if msgs:
                self.violation('%s [%s]' % (msgs[0], json.dumps(sp.brief(), sort_keys=True)[:400]),
                               {'kind': 'deploy', 'spec': sp.dump(), 'messages': msgs[:10],
                                'rc': r.rc, 'stderr': {n: e[-1500:] for n, e in r.err.items() if e.strip()}})
                with self.lock:
                    nbad[0] += 1
                if nbad[0] >= stop_after:
                    stop.set()
            else:
                self.sample(sp.brief())
            return r

        with ThreadPoolExecutor(workers) as ex:
            for r in ex.map(one, specs):
                if r is not None:
                    res.append(r)
        skipped = len(specs) - len(res)
        if skipped and not stop.is_set():
            self.note('%d of %d runs left out when the time budget ran out' % (skipped, len(specs)))
        return res

    # -- unit monitors -----------------------------------------------------
    def unit(self, name, variant, args, shim=False, timeout=600, env=None, label=None):
        """run one in-process monitor; returns its stats or None"""
        if self.left() < 0:
            return None
        b = build.Builder()
        try:
            exe = b.unit(name, variant, shim)
        except build.BuildError as e:
            self.note('monitor %s does not compile against this tree; deployments decide alone' % name)
            self.count(monitors_skipped=1)
            return None
        finally:
            b.close()
        args = [str(a) for a in args]
        e = dict(os.environ, **deploy.SAN_ENV)
        e.update(env or {})
        try:
            p = subprocess.run([exe] + args, capture_output=True, env=e, timeout=timeout, cwd=self.workdir)
        except subprocess.TimeoutExpired:
            self.violation('%s %s does not terminate' % (name, ' '.join(args)),
                           {'kind': 'unit', 'name': name, 'variant': variant, 'args': args, 'env': env})
            return None
        out = p.stdout.decode('utf8', 'replace')
        err = p.stderr.decode('utf8', 'replace')
        m = re.search(r'@@JSON(\{.*\})', out, re.S)
        rep = {'kind': 'unit', 'name': name, 'variant': variant, 'args': args, 'env': env, 'stderr': err[-2500:]}
        if not m:
            if p.returncode in (98, 99) or p.returncode < 0:
                if p.returncode == -9:
                    self.inconclusive += 1
                    return None
                self.violation('%s %s: %s' % (name, ' '.join(args), deploy.first_report(err).strip()[-300:] or 'ends with %d' % p.returncode), rep)
            else:
                self.note('monitor %s ended with %d without a verdict' % (name, p.returncode))
                self.inconclusive += 1
            return None
        j = json.loads(m.group(1))
        for v in j['viol'][:3]:
            rep2 = dict(rep, message=v)
            self.violation('%s %s: %s' % (name, ' '.join(args), v), rep2)
        for k, v in j['stats'].items():
            self.stats[k] += v
        return j['stats']

    # -- end ---------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.workdir, ignore_errors=True)
        wall = time.time() - self.t0
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': {'evaluations': int(self.evaluations), 'distinct_nontrivial': len(self.distinct),
                           'rule': self.rule, 'samples': self.samples,
                           'observed': {k: (round(v, 3) if isinstance(v, float) and v != int(v) else int(v))
                                        for k, v in sorted(self.stats.items())},
                           'inconclusive': self.inconclusive, 'notes': self.notes},
              'assumptions': self.assume, 'wall_s': round(wall, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        for n in self.notes:
            print('note:', n)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.viol), wall))
        if self.viol:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, (what, rep) in enumerate(self.viol[:3]):
                rp = os.path.join(rd, '%s-%s-s%d-%d.json' % (self.prop, self.tier, self.seed, i))
                with open(rp, 'w') as f:
                    json.dump({'property': self.prop, 'what': what, **rep}, f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.evaluations == 0:
            print('no evaluation was possible')
            return 2
        return 0
