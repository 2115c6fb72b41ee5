"""Builds /repo's current sources (all of them, from scratch or by content hash)
into /verif/.build under several instrumentation variants."""
import hashlib, os, re, subprocess, sys, fcntl, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, '.build')

# Starting processes and writing files that will be executed exclude each other: a child between
# fork and exec holds the descriptors of files being written, and executing those fails (ETXTBSY).
XLOCK = threading.RLock()
_popen = subprocess.Popen.__init__


def _locked(self, *a, **k):
    with XLOCK:
        _popen(self, *a, **k)


subprocess.Popen.__init__ = _locked

BASE = ['-std=c++17', '-w', '-g', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer']
VARIANTS = {
    # address + undefined sanitizer, reports fatal, libstdc++ assertions
    'san': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            '-D_GLIBCXX_ASSERTIONS'],
    # as shipped (README: --config=opt), used for large batches and valgrind
    'opt': ['-O3'],
    # unoptimised, for memcheck: optimisation removes reads of uninitialised variables
    'plain': ['-O0'],
    # real noise sampling (DPPIR_SAMPLE), sanitized
    'sample': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
               '-D_GLIBCXX_ASSERTIONS', '-DDPPIR_SAMPLE'],
    # plain build of the monitors themselves (no repo code)
    'tool': ['-O2'],
}
WRAP = ['read', 'recv', 'recvfrom', 'readv', 'recvmsg', 'send', 'write', 'sendto', 'writev',
        'sendmsg', 'poll', 'ppoll', 'select', 'connect', 'accept', 'accept4', 'listen', 'setsockopt', 'close',
        'sleep', 'usleep', 'nanosleep', 'clock_nanosleep']


class BuildError(Exception):
    pass


def _sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), p.stdout[-6000:]))


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


_absl = None


def absl_flags():
    global _absl
    if _absl is None:
        p = subprocess.run(['pkg-config', '--libs', 'absl_flags', 'absl_flags_parse',
                            'absl_flags_usage'], capture_output=True, text=True)
        _absl = p.stdout.split()
    return _absl


def has_main(path):
    txt = _read(path).decode('utf8', 'replace')
    return re.search(r'^\s*int\s+main\s*\(', txt, re.M) is not None


def repo_sources():
    libs, mains = [], []
    for p in sorted(glob.glob(os.path.join(REPO, 'DPPIR', '**', '*.cc'), recursive=True)):
        if p.endswith('_test.cc'):
            continue
        (mains if has_main(p) else libs).append(p)
    return libs, mains


def headers_hash():
    h = hashlib.sha256()
    for ext in ('h', 'inc', 'hpp'):
        for p in sorted(glob.glob(os.path.join(REPO, 'DPPIR', '**', '*.' + ext), recursive=True)):
            h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


def own_headers_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, 'src', '*.h'))):
        h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


class Builder:
    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        self.lock = open(os.path.join(OUT, 'lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.hh = headers_hash()
        self.oh = own_headers_hash()
        self.pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 4)

    def obj(self, src, variant, extra=()):
        flags = BASE + VARIANTS[variant] + list(extra)
        own = src.startswith(VERIF)
        key = hashlib.sha256(repr((src, flags, self.hh if variant != 'tool' else '',
                                   self.oh if own else '')).encode() + _read(src)).hexdigest()[:24]
        d = os.path.join(OUT, 'obj', variant)
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, os.path.basename(src) + '.' + key + '.o')
        if not os.path.exists(o):
            tmp = o + '.tmp'
            _sh(['g++', *flags, '-I', REPO, '-I', os.path.join(VERIF, 'src'), '-c', src, '-o', tmp],
                'compiling ' + src)
            os.rename(tmp, o)
        return o

    def objs(self, srcs, variant, extra=()):
        return list(self.pool.map(lambda s: self.obj(s, variant, extra), srcs))

    def link(self, name, objs, variant, libs, wrap=False):
        flags = BASE + VARIANTS[variant]
        w = ['-Wl,--wrap=' + s for s in WRAP] if wrap else []
        key = hashlib.sha256(repr((name, sorted(objs), flags, libs, w)).encode()).hexdigest()[:24]
        d = os.path.join(OUT, 'bin', variant)
        os.makedirs(d, exist_ok=True)
        b = os.path.join(d, name + '.' + key)
        if not os.path.exists(b):
            tmp = b + '.tmp'
            _sh(['g++', *flags, *objs, *w, '-o', tmp, *libs], 'linking ' + name)
            os.rename(tmp, b)
        return b

    def repo_bins(self, variant):
        """main and gen_config of the tree, with the shim linked in."""
        libs, mains = repo_sources()
        shim = os.path.join(VERIF, 'src', 'shim.cc')
        mk = os.path.join(VERIF, 'src', 'mkconfig.cc')
        o = self.objs(libs + mains + [shim], variant)
        lo = o[:len(libs)]
        res = {}
        for m, mo in zip(mains, o[len(libs):len(libs) + len(mains)]):
            n = os.path.splitext(os.path.basename(m))[0]
            res[n] = self.link(n, [mo] + lo + [o[-1]], variant,
                               absl_flags() + ['-lsodium', '-lpthread'], wrap=True)
        try:
            res['mkconfig'] = self.link('mkconfig', [self.obj(mk, variant)] + lo, variant,
                                        ['-lsodium', '-lpthread'])
        except BuildError:
            res['mkconfig'] = None      # config API changed: deploy.py encodes the file itself
        return res

    def unit(self, name, variant, shim=False, extra=(), libs=('-lsodium', '-lpthread')):
        """a monitor program of ours linked with the tree's library objects."""
        l, _ = repo_sources()
        srcs = [os.path.join(VERIF, 'src', name + '.cc')]
        if shim:
            srcs.append(os.path.join(VERIF, 'src', 'shim.cc'))
        o = self.objs(l, variant) + self.objs(srcs, variant, extra)
        return self.link(name, o, variant, list(libs), wrap=shim)

    def tool(self, name):
        o = self.objs([os.path.join(VERIF, 'src', name + '.cc')], 'tool')
        return self.link(name, o, 'tool', ['-lsodium', '-lpthread'])

    def prune(self, keep=400):
        for sub in ('obj', 'bin'):
            fs = glob.glob(os.path.join(OUT, sub, '*', '*'))
            fs.sort(key=os.path.getmtime)
            for f in fs[:-keep] if len(fs) > keep else []:
                try:
                    os.unlink(f)
                except OSError:
                    pass

    def close(self):
        self.prune()
        self.pool.shutdown()
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()
