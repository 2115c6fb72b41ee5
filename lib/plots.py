"""C23: runs the tree's plotting script on recorded and generated results, with
stand-ins for the drawing libraries that record what is drawn, and compares
every drawn value with one computed independently from the results."""
import json, math, os, random, re, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import build

STUBS = os.path.join(build.VERIF, 'src', 'py')
MEAN = 276      # noise queries per row at the parameters of the paper


class Run:
    """one measured run: parameters, and the logs of its processes"""
    def __init__(self, name, kind, par, logs):
        self.name, self.kind, self.par, self.logs = name, kind, par, logs
        self.files = {}


CHAT = ['INFO: Build completed successfully, 1 total action', 'Loading: 0 packages loaded', 'DEBUG: Rule checklist',
        'Listening on port 3000', 'Online stage', 'time: 12ms', 'Total time: 99ms', 'Online time was long', '']


def chat(R):
    return ''.join(R.choice(CHAT) + '\n' for _ in range(R.randrange(0, 4)))


def dur(R, big):
    """a Go duration and its value in seconds"""
    k = R.choice(['ms', 's', 'm', 's0'] if big else ['ms', 's'])
    if k == 'ms':
        v = R.choice([R.randrange(1, 1000), R.randrange(1, 10**9) / 1e6])
        v = max(v, 1.0) if v >= 1 else 1.5
        t = ('%.6f' % v).rstrip('0').rstrip('.')
        return t + 'ms', float(t) / 1000
    if k == 's':
        t = ('%.9f' % R.uniform(1, 59.9)).rstrip('0').rstrip('.')
        return t + 's', float(t)
    if k == 's0':
        m = R.randrange(1, 60)
        return '%dm0s' % m, m * 60.0
    m, t = R.randrange(1, 60), ('%.9f' % R.uniform(0.1, 59.9)).rstrip('0').rstrip('.')
    return '%dm%ss' % (m, t), m * 60 + float(t)


def ms(R):
    return R.choice([R.randrange(1, 50), R.randrange(100, 10**4), R.randrange(10**4, 10**8)])


def logs_of(R, kind, par, modes):
    """files of a run and the times a plot may show: {mode: set of seconds}"""
    f, t = {}, {}
    if kind == 'dppir':
        for s in range(par['parallelism']):
            for p in range(par['parties']):
                txt = chat(R)
                last = p == par['parties'] - 1
                for m in modes:
                    v = ms(R)
                    if not last:
                        txt += '%s time: %dms\n%s' % (m, v, chat(R))
                    if p == 0:
                        t.setdefault(m, set()).add(v / 1000)
                f['party-%d-%d.log' % (p, s)] = txt
            f['client-%d.log' % s] = chat(R) + R.choice(['', 'All good!\n'])
        for m in ('Online', 'Offline'):
            t.setdefault(m, {None})
        return f, t
    if kind == 'checklist':
        a, b = dur(R, True), dur(R, True)
        txt = chat(R) + '23.771023527s\nServer 1 time: %s and bytes: %d\n%sServer 2 time: %s and bytes: %d\n' % (
            a[0], R.randrange(1 << 30), R.choice(['', 'ok\n']), b[0], R.randrange(1 << 30))
        f['client.log'] = txt
        for s in (R.randrange(9), 9 + R.randrange(9)):
            f['server%d.log' % s] = chat(R) + 'Server 1 time: 900m1s and bytes: 1\n'
        return f, {'*': {max(a[1], b[1])}}
    v = ms(R)
    f['sealpir.log'] = chat(R) + 'Preprocessing time: %dms\nServer time: %dms\nResponse time: %dms\n' % (ms(R), v, ms(R))
    return f, {'*': {v / 1000}}


def parse_logs(kind, par, files):
    """the same from existing files (recorded measurements)"""
    t = {}
    if kind == 'dppir':
        for n, txt in files.items():
            if n.startswith('party-0-'):
                for m in ('Online', 'Offline'):
                    v = None
                    for l in txt.splitlines():
                        if l.startswith(m + ' time: '):
                            v = int(l.split(': ')[1][:-2]) / 1000
                    t.setdefault(m, set()).add(v)
        return t
    if kind == 'checklist':
        best = None
        for l in files.get('client.log', '').splitlines():
            if l.startswith('Server ') and ' time: ' in l:
                d = l.split(' time: ')[1].split(' and ')[0]
                m = 0
                if 'm' in d and not d.endswith('ms'):
                    m, d = d.split('m')
                v = int(m) * 60 + (float(d[:-2]) / 1000 if d.endswith('ms') else float(d[:-1]))
                best = v if best is None else max(best, v)
        return {'*': {best}}
    for l in files.get('sealpir.log', '').splitlines():
        if l.startswith('Server time: '):
            t['*'] = {int(l.split(': ')[1][:-2]) / 1000}
    return t


class Case:
    """descriptions, runs, and what the script must do with them"""
    def __init__(self):
        self.desc = {}      # name -> description
        self.runs = []      # (dirname, kind, par, files, times)
        self.args = ['ui']
        self.refuse = set()     # descriptions that have to be refused
        self.must = False       # every figure has to come out
        self.wrong = []
        self.maybe = set()      # descriptions that may be refused or drawn correctly
        self.tag = ''

    def add(self, R, exp, kind, par, modes=('Offline', 'Online'), name=None):
        f, t = logs_of(R, kind, par, modes)
        if name is None:
            if kind == 'dppir':
                name = '%s-%d-%d-%d-%d-%s-%s' % (exp, par['tableSize'], par['parties'], par['parallelism'], par['queries'], *par['dp'])
            else:
                name = '%s-%d-%d' % (exp, par['tableSize'], par['queries'])
        self.runs.append([name, kind, par, f, t])
        return self.runs[-1]


KIND = {'DP-PIR': 'dppir', 'Checklist': 'checklist', 'SealPIR': 'sealpir'}


def measured(case, exp, proto, mode, axis):
    """x -> set of possible values, from the runs of that experiment"""
    out = {}
    for name, kind, par, f, t in case.runs:
        if name.split('-')[0] != exp or kind != KIND[proto] or par.get('pirtype', mode) != mode:
            continue
        vals = t[mode] if kind == 'dppir' else t['*']
        out.setdefault(par[axis], set()).update(vals)
    return out


def expect_series(case, d, proto, mode):
    """list of acceptable values per x, or 'refused'"""
    m = measured(case, d['experiment-name'], proto, mode, d['axis']['x'])
    xs = d['x']
    if any(x not in xs for x in m):
        return 'refused'
    have = [(x, m[x]) for x in xs if x in m and m[x] != {None}]
    allowed = set(d['interpolate']['%s-%s' % (proto, mode)])
    out = []
    for x in xs:
        if x in m and m[x] != {None}:
            out.append(m[x] - {None})
        elif x not in allowed:
            return 'refused'
        elif len(have) < 2:
            return ANY      # nothing to extrapolate from
        elif proto == 'DP-PIR':
            o = set()
            (x1, s1), (x2, s2) = have[-2:]
            for y1 in s1:
                for y2 in s2:
                    g = (y2 - y1) / (x2 - x1)
                    o.add(val(y1 + g * (x - x1), g * x, g * x2, y1, y2))
            out.append(o)
        else:
            x1, s1 = have[-1]
            out.append({y * x / x1 for y in s1})
    return out


def expect_ratio(case, d):
    exp, xs = d['experiment-name'], d['x']
    noise = real = None
    for name, kind, par, f, t in case.runs:
        if name.split('-')[0] == exp and kind == 'dppir':
            y = next(iter(t['Online']))
            if y is None:
                return 'refused', None
            if par['queries'] == 1:
                noise = y / (par['tableSize'] * MEAN)
            else:
                real = y / par['queries']
    proto, mode = d['baseline']
    base = {}
    for name, kind, par, f, t in case.runs:
        if name.split('-')[0] == exp and kind == KIND[proto] and par.get('pirtype', mode) == mode:
            if par['tableSize'] not in xs:
                return 'refused', None
            base[par['tableSize']] = next(iter(t['*'])) / par['queries']
    have = [(x, base[x]) for x in xs if x in base]
    cost = {}
    for x in xs:
        if x in base:
            cost[x] = base[x]
        elif mode != 'Punc':
            return 'refused', None
        else:
            cost[x] = have[-1][1] * math.sqrt(x / have[-1][0])
    out = {}
    for lab in d['axis']['y']:
        k = float(lab[:-1])
        out[lab] = [ANY if abs(cost[x] - k * real) < 1e-6 * cost[x] else {k * MEAN * noise / (cost[x] - k * real)} for x in xs]
        if ANY in out[lab]:
            return ANY, None
    play = None
    if exp == 'figure2':
        T = 2500000
        play = [cost[T] * q / (noise * T * n + real * q) for q, n in ((3 * 10**9, MEAN), (3 * 10**11, MEAN), (3 * 10**11, MEAN * 100))]
    return out, play


class V(float):
    """a value whose computation involves terms of a larger size"""
    size = 0.0


def val(v, *terms):
    v = V(v)
    v.size = max([abs(x) for x in terms] + [0.0])
    return v


ANY = 'any'


def close(a, want):
    return want == ANY or a is not None and any(abs(a - w) <= 1e-6 * max(abs(w), 1e-9) + 1e-9 * getattr(w, 'size', 0) + 1e-12 for w in want)


def compare(label, xs, want, rec):
    if rec['x'] is None or rec['y'] is None:
        return '%s: the drawn values are not numbers' % label
    if [float(x) for x in xs] != rec['x']:
        return '%s is drawn at %s instead of %s' % (label, rec['x'], xs)
    if len(rec['y']) != len(want):
        return '%s has %d values for %d points' % (label, len(rec['y']), len(want))
    for x, y, w in zip(xs, rec['y'], want):
        if not close(y, w):
            return '%s at %s is drawn as %r; the results say %s' % (label, x, y, sorted(w)[:4] if w != ANY else w)
    return None


def split_events(evs):
    """events of one invocation with one description"""
    return ([e for e in evs if e['ev'] == 'plot' and e['label'] is not None], [e for e in evs if e['ev'] == 'table'],
            [e for e in evs if e['ev'] in ('save', 'show')])


class Env:
    def __init__(self, root, case):
        self.root = root
        e = root + '/experiments'
        self.plots = e + '/plots'
        shutil.copytree(os.path.join(build.REPO, 'experiments', 'plots'), self.plots)
        shutil.rmtree(self.plots + '/figs')
        os.makedirs(self.plots + '/figs')
        if case.desc is not None:
            shutil.rmtree(self.plots + '/descriptions')
            os.makedirs(self.plots + '/descriptions')
            for n, d in case.desc.items():
                with open(self.plots + '/descriptions/%s.json' % n, 'w') as f:
                    json.dump(d, f)
        out = e + '/orchestrator/outputs'
        os.makedirs(out)
        for name, kind, par, files, t in case.runs:
            os.makedirs(out + '/' + name)
            for n, txt in files.items():
                with open(out + '/%s/%s' % (name, n), 'w') as f:
                    f.write(txt)

    def run(self, args):
        log = self.root + '/draw.log'
        open(log, 'w').close()
        env = dict(os.environ, PYTHONPATH=STUBS, VPLOT_LOG=log, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['python3', 'plot.py'] + args, cwd=self.plots, env=env, capture_output=True, text=True, timeout=120)
        evs = [json.loads(l) for l in open(log)]
        return p.returncode, p.stdout, p.stderr, evs


def judge(case, name, d, mode, rc, out, err, evs, plots):
    """None or what is wrong, for one description drawn alone"""
    drawn, tables, ends = split_events(evs)
    tail = (err.strip().splitlines() or [''])[-1][:160]
    texp = plots + '/figs/%s.tex' % d['experiment-name']
    if d['type'] == 'table':
        m = {}
        bad = False
        exp, ra = d['experiment-name'], d['table']['rows-attr']
        for rn, kind, par, f, t in case.runs:
            if rn.split('-')[0] == exp and kind == 'dppir':
                if par[ra] not in d['table']['rows'] or None in t['Online'] or None in t['Offline']:
                    bad = True
                m[par[ra]] = t
        if name in case.refuse:
            bad = True
        if bad:
            if rc == 0 or tables or os.path.exists(texp):
                return 'table %s is produced although a result is unusable' % name
            return None
        if rc != 0:
            return 'table %s is refused: %s' % (name, tail)
        if mode == 'ui':
            if len(tables) != 1:
                return 'table %s is shown %d times' % (name, len(tables))
            rows = tables[0]['rows']
            head = tables[0]['headers']
            if head != [d['labels']['headers'][0]] + d['table']['cols']:
                return 'table %s has columns %s' % (name, head)
        else:
            if not os.path.exists(texp):
                return 'table %s is not written to %s' % (name, os.path.basename(texp))
            body = open(texp).read().split('\\hline')[-1].split('\\end')[0]
            rows = [[c.strip() for c in r.split('&')] for r in body.strip().split('\\\\')]
            head = open(texp).read().split('\\hline')[0]
            if not (0 <= head.find(d['table']['cols'][0]) < head.find(d['table']['cols'][1])):
                return 'table %s has other columns than described' % name
            if not (0 <= head.find(d['labels']['headers'][0]) < head.find(d['labels']['headers'][1])):
                return 'table %s has other headings than described' % name
        if len(rows) != len(d['table']['rows']):
            return 'table %s has %d rows' % (name, len(rows))
        for r, x in zip(rows, d['table']['rows']):
            try:
                r = [float(c) for c in r]
            except (TypeError, ValueError):
                return 'table %s row %s reads %s' % (name, x, r)
            if r[0] != x:
                return 'table %s row %s is labelled %s' % (name, x, r[0])
            for c, v in zip(d['table']['cols'], r[1:]):
                if not close(v, m[x][c]):
                    return 'table %s: %s for %s is %s; the results say %s' % (name, c, x, v, sorted(m[x][c])[:4])
        return None
    # curves
    exp = {}
    play = None
    if d['type'] == 'ratio-plot':
        exp, play = expect_ratio(case, d)
    else:
        for proto, m in d['axis']['y']:
            lab = (proto, m)[d['labels']['graphs']] if proto == 'DP-PIR' else 'SealPIR' if proto == 'SealPIR' else 'Checklist' if m == 'Punc' else 'DPF'
            w = expect_series(case, d, proto, m)
            if w == 'refused' or w == ANY:
                exp = w
                break
            exp[lab] = w
    if exp == ANY:
        return None
    if name in case.refuse:
        exp = 'refused'
    if exp == 'refused' and case.must:
        return '%s cannot be drawn from the runs provided for it: %s' % (name, tail)
    if exp == 'refused':
        if rc == 0 or drawn:
            return '%s is drawn although a value is missing, unusable or not part of the figure' % name
        return None
    if rc != 0:
        if name in case.maybe and not drawn:
            return None
        return '%s is refused: %s' % (name, tail)
    got = {}
    for e in drawn:
        if e['label'] in got:
            return '%s: curve %s is drawn twice' % (name, e['label'])
        got[e['label']] = e
    if set(got) != set(exp):
        return '%s shows the curves %s instead of %s' % (name, sorted(got), sorted(exp))
    for lab, w in exp.items():
        m = compare('%s: curve %s' % (name, lab), d['x'], w, got[lab])
        if m:
            return m
    if d['type'] == 'split-plot':
        if got[d['top']]['axes'] != 0 or got[d['bot']]['axes'] != 1:
            return '%s: the halves are swapped' % name
    if len(ends) != 1:
        return '%s is shown or saved %d times' % (name, len(ends))
    if mode == 'pdf':
        if ends[0]['ev'] != 'save' or os.path.normpath(ends[0].get('path', '')) != os.path.join('figs', d['experiment-name'] + '.pgf'):
            return '%s is not saved as figs/%s.pgf' % (name, d['experiment-name'])
    elif ends[0]['ev'] != 'show':
        return '%s is not shown' % name
    if play is not None:
        l = [x for x in out.splitlines() if x.startswith('Google play')]
        v = [float(x) for x in re.findall(r'[-+0-9.e]+', l[0].split('[')[-1])] if l else []
        if len(v) != 3 or any(not close(a, {b}) for a, b in zip(v, play)):
            return '%s: the app-store speed-ups are %s; the results say %s' % (name, v, play)
    return None


def base_desc(exp, typ, R):
    return {'experiment-name': exp, 'type': typ, 'tableSize': 'x', 'queries': '1',
            'labels': {'x': 'X', 'y': 'Y', 'graphs': R.randrange(2), 'title': 't'},
            'ranges': {'x': [1, 10], 'y': [1, 10]}, 'yscale': 'log'}


def params(R, axis, x):
    p = {'tableSize': R.choice([100, 1000, 2500000]), 'parties': R.choice([2, 2, 3, 5]), 'parallelism': R.choice([1, 1, 1, 2, 4]),
         'queries': R.choice([1, 10, 1000]), 'dp': R.choice([('0.1', '0.000001'), ('0', '0'), ('1', '0.5')])}
    p[axis] = x
    return p


def xs_for(R, axis):
    n = R.randrange(3, 8)
    if axis in ('parties', 'parallelism'):
        return sorted(R.sample(range(2, 12) if axis == 'parties' else [1, 2, 3, 4, 6, 8, 16], min(n, 6)))
    return sorted(R.sample([1, 5, 10, 11, 100, 110, 1000, 10000, 25000, 100000, 10**6, 2500000, 10**7, 10**8], n))


def add_plot(case, R, exp):
    """a simple or split plot with its results"""
    axis = R.choice(['queries', 'queries', 'tableSize', 'parties', 'parallelism'])
    xs = xs_for(R, axis)
    typ = 'simple-plot'
    if R.random() < .25:
        typ = 'split-plot'
        ser = [['DP-PIR', 'Offline'], ['DP-PIR', 'Online']]
        if R.random() < .5:
            ser.reverse()
    elif axis in ('parties', 'parallelism'):
        ser = R.choice([[['DP-PIR', 'Online']], [['DP-PIR', 'Online'], ['DP-PIR', 'Offline']]])
    else:
        ser = R.choice([[['DP-PIR', 'Offline'], ['DP-PIR', 'Online']], [['Checklist', R.choice(['DPF', 'Punc'])], ['DP-PIR', 'Online']],
                        [['DP-PIR', 'Online'], ['SealPIR', 'SealPIR']], [['DP-PIR', 'Online']]])
    d = base_desc(exp, typ, R)
    if sum(s[0] == 'DP-PIR' for s in ser) == 2:
        d['labels']['graphs'] = 1
    d['axis'] = {'x': axis, 'y': ser}
    d['x'] = xs
    d['interpolate'] = {}
    if typ == 'split-plot':
        d.update(top='Offline', bot='Online', split=[40, 400])
    modes = {}
    for proto in sorted({s[0] for s in ser}):
        kind = KIND[proto]
        can = axis == 'queries' or (axis == 'tableSize' and kind == 'dppir')
        skip = set()
        if can and len(xs) > 3 and R.random() < .6:
            skip = set(xs[-R.randrange(1, len(xs) - 2):])
            if R.random() < .2:
                skip = {R.choice(xs[:-1])}
        for x in xs:
            if x in skip:
                continue
            md = ('Offline', 'Online')
            par = params(R, axis, x)
            if kind == 'dppir':
                md = R.choice([('Offline', 'Online'), ('Online', 'Offline')])
            case.add(R, exp, kind, par, md)
        for s in ser:
            if s[0] == proto:
                d['interpolate']['%s-%s' % tuple(s)] = sorted(skip | ({R.choice(xs)} if R.random() < .3 else set()))
    # offline stages that were not run: values left to extrapolation
    if ['DP-PIR', 'Offline'] in ser and axis in ('queries', 'tableSize') and len(xs) > 3 and R.random() < .4:
        mine = [r for r in case.runs if r[0].split('-')[0] == exp and r[1] == 'dppir']
        if len(mine) > 2:
            r = max(mine, key=lambda r: r[2][axis])
            r[3], r[4] = logs_of(R, 'dppir', r[2], ('Online',))
            k = 'DP-PIR-Offline'
            d['interpolate'][k] = sorted(set(d['interpolate'][k]) | {r[2][axis]})
    case.desc[exp] = d
    return d


def add_ratio(case, R, exp):
    d = base_desc(exp, 'ratio-plot', R)
    d['yscale'] = 'linear'
    proto, mode = R.choice([('Checklist', 'Punc'), ('Checklist', 'DPF'), ('SealPIR', 'SealPIR'), ('Checklist', 'Punc')])
    d['baseline'] = [proto, mode]
    d['axis'] = {'x': 'tableSize', 'y': R.sample(['1x', '2x', '5x', '10x', '1.5x'], R.randrange(1, 5))}
    xs = sorted(R.sample([100, 1000, 10000, 10**5, 10**6, 2500000, 10**7], R.randrange(2, 6)))
    if exp == 'figure2' and 2500000 not in xs:
        xs = sorted(xs + [2500000])
    d['x'] = xs
    skip = set(xs[-R.randrange(1, len(xs)):]) if mode == 'Punc' and R.random() < .6 else set()
    for x in xs:
        if x not in skip:
            case.add(R, exp, KIND[proto], {'tableSize': x, 'queries': R.choice([1, 10, 1000])})
    case.add(R, exp, 'dppir', dict(params(R, 'queries', 1), parallelism=1, dp=('0.1', '0.000001')), ('Online',))
    case.add(R, exp, 'dppir', dict(params(R, 'queries', R.choice([2, 5, 10, 100, 10**6])), parallelism=1, dp=('0', '0')), ('Online',))
    case.desc[exp] = d
    return d


def add_table(case, R, exp):
    d = base_desc(exp, 'table', R)
    axis = R.choice(['parallelism', 'parallelism', 'parties', 'queries', 'tableSize'])
    rows = xs_for(R, axis)
    if R.random() < .4:
        R.shuffle(rows)
    cols = R.choice([['Offline', 'Online'], ['Online', 'Offline']])
    d['table'] = {'rows-attr': axis, 'rows': rows, 'cols-attr': 'mode', 'cols': cols}
    d['labels']['headers'] = ['Machines', 'Time']
    for x in rows:
        case.add(R, exp, 'dppir', params(R, axis, x), R.choice([('Offline', 'Online'), ('Online', 'Offline')]))
    case.desc[exp] = d
    return d


def damage(case, R, exp):
    """makes one result unusable or absent; the figure has to be refused"""
    d = case.desc[exp]
    mine = [r for r in case.runs if r[0].split('-')[0] == exp]
    typ = d['type']
    k = R.choice(['absent', 'twice', 'none', 'alien', 'unit', 'cut'])
    if k == 'absent':
        if typ == 'table':
            return None
        if typ == 'ratio-plot':
            c = [r for r in mine if r[1] != 'dppir']
            if d['baseline'][1] == 'Punc' or len(c) < 2:
                return None
            case.runs.remove(R.choice(c))
            case.refuse.add(exp)
            return k
        need = [s for s in d['axis']['y']]
        al = set().union(*[set(d['interpolate']['%s-%s' % tuple(s)]) for s in need])
        c = [r for r in mine if r[2][d['axis']['x']] not in al]
        if not c:
            return None
        case.runs.remove(R.choice(c))
        case.refuse.add(exp)
        return k
    if k == 'alien':
        if typ == 'ratio-plot':
            return None
        axis = d['table']['rows-attr'] if typ == 'table' else d['axis']['x']
        kinds = ['dppir'] if typ == 'table' else [KIND[s[0]] for s in d['axis']['y']]
        kind = R.choice(kinds)
        case.add(R, exp, kind, params(R, axis, 987654321 if axis in ('queries', 'tableSize') else 97))
        r = case.runs[-1]
        if axis in ('parties', 'parallelism') and kind == 'dppir':
            r[3] = {n: t for n, t in r[3].items() if n in ('party-0-0.log', 'client-0.log')}
        case.refuse.add(exp)
        return k
    r = R.choice(mine)
    if r[1] == 'dppir':
        modes = ['Online', 'Offline'] if typ == 'table' else ['Online'] if typ == 'ratio-plot' else [s[1] for s in d['axis']['y'] if s[0] == 'DP-PIR']
        m = R.choice(modes)
        fs = [n for n in r[3] if n.startswith('party-0-')]
        if k == 'twice':
            if r[4][m] == {None}:
                return None
            for n in fs:
                r[3][n] += '%s time: 5ms\n' % m
        else:
            if m == 'Offline' and typ != 'table':
                return None
            for n in fs:
                if k == 'cut':      # the log ends in the middle of the line
                    r[3][n] = re.sub(r'(?s)(%s time: \d).*' % m, r'\1', r[3][n])
                else:
                    r[3][n] = r[3][n].replace(m + ' time', m + ' tme')
        case.refuse.add(exp)
        return k
    if r[1] == 'sealpir':
        r[3]['sealpir.log'] = r[3]['sealpir.log'].replace('Server time', 'Srv time') if k != 'twice' else r[3]['sealpir.log'] + 'Server time: 3ms\n'
        case.refuse.add(exp)
        return k
    # checklist: a time the script cannot read must not be replaced by something else
    t = r[3]['client.log']
    new = {'none': '', 'unit': '1h2m3.5s'}.get(k)
    if new is None:
        return None
    if new:
        t = re.sub(r'(Server [12] time: )\S+', lambda m: m.group(1) + new, t, count=R.choice([0, 1]))
        r[4] = {'*': {3723.5}}
        case.maybe.add(exp)     # reading hours correctly is as good as refusing them
    else:
        t = re.sub(r'Server [12] time.*\n', '', t, count=R.choice([0, 1]))
        case.refuse.add(exp)
    r[3]['client.log'] = t
    return k


NAMES = ['figure1', 'figure10', 'figure2', 'fig', 'figure', 'table2', 'table', 'exp 1', 'a.b']


def make(seed):
    R = random.Random('c23/%s' % seed)
    case = Case()
    names = R.sample(NAMES, R.randrange(1, 4))
    for n in names:
        R.choice([add_plot, add_plot, add_ratio, add_table])(case, R, n)
    if R.random() < .35:
        n = R.choice(names)
        case.tag = damage(case, R, n) or ''
    # results of something else
    for _ in range(R.randrange(0, 3)):
        exp = R.choice(names) + R.choice(['0', 'x', '1'])
        if exp in case.desc:
            continue
        par = params(R, 'queries', R.choice([1, 10, 100]))
        nm = '%s-%d-%d-%d-%d-%s-%s' % (exp, par['tableSize'], par['parties'], par['parallelism'], par['queries'], *par['dp'])
        if all(r[0] != nm for r in case.runs):
            case.add(R, exp, 'dppir', par, name=nm)
    # two runs in one directory are no input
    seen = set()
    uniq = []
    for r in case.runs:
        if r[0] not in seen:
            seen.add(r[0])
            uniq.append(r)
    case.runs = uniq
    # tables never have holes here
    for n in names:
        d = case.desc[n]
        if d['type'] == 'table':
            got = {r[2][d['table']['rows-attr']] for r in case.runs if r[0].split('-')[0] == n}
            d['table']['rows'] = [x for x in d['table']['rows'] if x in got]
    return case, R


def recorded(desc_names):
    """the measurements shipped with the tree, with their parameters read off the directory"""
    case = Case()
    base = os.path.join(build.REPO, 'experiments', 'measurements')
    for fig in sorted(f for f in os.listdir(base) if os.path.isdir(os.path.join(base, f))):
        for dn in sorted(os.listdir(os.path.join(base, fig))):
            p = os.path.join(base, fig, dn)
            files = {f: open(os.path.join(p, f), errors='replace').read() for f in os.listdir(p)}
            v = dn.split('-')
            if len(v) == 7:
                kind, par = 'dppir', dict(zip(('tableSize', 'parties', 'parallelism', 'queries'), map(int, v[1:5])))
            else:
                kind = 'sealpir' if 'sealpir.log' in files else 'checklist'
                par = {'tableSize': int(v[1]), 'queries': int(v[2])}
            case.runs.append([dn, kind, par, files, parse_logs(kind, par, files)])
    case.must = True
    dd = os.path.join(build.REPO, 'experiments', 'plots', 'descriptions')
    for n in sorted(os.listdir(dd)):
        case.desc[n[:-5]] = json.load(open(os.path.join(dd, n)))
    return case


def stored(seed):
    """results of the experiments stored with the orchestrator, with random times"""
    R = random.Random('c23s/%s' % seed)
    case = Case()
    base = os.path.join(build.REPO, 'experiments', 'orchestrator', 'stored')
    for n in sorted(os.listdir(base)):
        for e in json.load(open(os.path.join(base, n))):
            kind = e['experimentType']
            par = {k: e[k] for k in ('tableSize', 'parties', 'parallelism', 'queries', 'pirtype') if k in e}
            want = {'checklist': (1, 2), 'sealpir': (1, 0)}.get(kind)
            if kind == 'dppir':
                par['queries'] *= e['clientsNum']
                want = (e['parallelism'], e['parties'] * e['parallelism'])
                if (e['epsilon'], e['delta']) not in ((0.1, 1e-6), (0, 0)):
                    case.wrong.append('%s: %s uses other privacy parameters than the figures' % (n, e['name_']))
            if (e['clientsNum'], e['serversNum']) != want:
                case.wrong.append('%s: %s has %d clients and %d servers' % (n, e['name_'], e['clientsNum'], e['serversNum']))
            modes = {'all': ('Offline', 'Online'), 'online': ('Online',), 'offline': ('Offline',)}[e['mode']] if kind == 'dppir' else ()
            f, t = logs_of(R, kind, par, modes)
            case.runs.append([e['name_'], kind, par, f, t])
    case.must = True
    dd = os.path.join(build.REPO, 'experiments', 'plots', 'descriptions')
    for n in sorted(os.listdir(dd)):
        case.desc[n[:-5]] = json.load(open(os.path.join(dd, n)))
    return case, R


def check_case(ctx, case, R, root, seed, how):
    """draws every description of the case alone and, where all are good, together"""
    env = Env(root, case)
    bad = case.wrong[:1]
    for n, d in case.desc.items():
        mode = R.choice(['ui', 'pdf'])
        rc, out, err, evs = env.run([mode, n])
        w = judge(case, n, d, mode, rc, out, err, evs, env.plots)
        ctx.count(figures=1, curves=len(split_events(evs)[0]), tables=len(split_events(evs)[1]), refused=int(rc != 0),
                  points=sum(len(e['y'] or []) for e in split_events(evs)[0]))
        ctx.seen((n, d['type'], rc != 0, json.dumps(d.get('axis') or d.get('table'), sort_keys=True)))
        if w:
            bad.append(w)
            break
    if not bad and case.must and len(case.desc) > 1:
        rc, out, err, evs = env.run(['ui'] if R.random() < .5 else [])
        if rc == 0:
            drawn, tables, ends = split_events(evs)
            if len(ends) + len(tables) != len(case.desc):
                bad.append('drawing everything shows %d figures and %d tables for %d descriptions' % (len(ends), len(tables), len(case.desc)))
    return bad


def one(ctx, how, seed):
    import tempfile
    root = tempfile.mkdtemp(dir=ctx.workdir)
    try:
        if how == 'recorded':
            case, R = recorded(None), random.Random(seed)
        elif how == 'stored':
            case, R = stored(seed)
        else:
            case, R = make(seed)
        return check_case(ctx, case, R, root, seed, how), case
    finally:
        shutil.rmtree(root, ignore_errors=True)


def c23(ctx):
    ctx.rule = ('one evaluation = one collection of results with its figure descriptions (the shipped measurements, the stored experiments with random '
                'times, or generated ones, some with a missing, doubled, unreadable or foreign result), drawn by the real script; every drawn value is '
                'compared with one computed from the results; distinct: by figure, kind, axes and whether it has to be refused')
    ctx.assume = ['matplotlib, numpy and tabulate are replaced by stand-ins that record what they are asked to draw']
    jobs = [('recorded', 'r%d' % ctx.seed), ('stored', 's%d' % ctx.seed), ('stored', 's%d.b' % ctx.seed)]
    jobs += [('made', '%d/%d' % (ctx.seed, i)) for i in range(ctx.n(600, 6000))]
    stop = threading.Event()

    def go(j):
        if stop.is_set() or ctx.left() < 0:
            return
        bad, case = one(ctx, *j)
        with ctx.lock:
            ctx.evaluations += 1
        if bad:
            stop.set()
            ctx.violation('%s [%s %s]' % (bad[0], j[0], j[1]), {'kind': 'plots', 'how': j[0], 'seed': j[1], 'messages': bad})
        else:
            ctx.sample({'how': j[0], 'figures': sorted(case.desc), 'results': len(case.runs), 'damage': case.tag})

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
