"""Stand-ins for the drawing libraries of experiments/plots: they draw nothing
and record what they are told to draw (VPLOT_LOG, one JSON object per line)."""
import json, os


def rec(**k):
    with open(os.environ['VPLOT_LOG'], 'a') as f:
        f.write(json.dumps(k) + '\n')


class Any:
    """accepts whatever else is done to a figure"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()

    def __getitem__(self, k):
        return Any()

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def nums(v):
    try:
        return [float(x) for x in v]
    except TypeError:
        return None


class Axes(Any):
    def __init__(self, idx=0):
        self.idx = idx
        self.labels = []
        self.lim = {}

    def _draw(self, how, a, k):
        a = list(a)
        lab = k.get('label')
        if lab is not None:
            self.labels.append(lab)
        xs = nums(a[0]) if a else None
        ys = nums(a[1]) if len(a) > 1 and not isinstance(a[1], str) else None
        rec(ev='plot', axes=self.idx, how=how, label=lab, x=xs, y=ys)
        return [Any()]

    def plot(self, *a, **k):
        return self._draw('plot', a, k)

    def scatter(self, *a, **k):
        return self._draw('plot', a, k)

    def semilogx(self, *a, **k):
        return self._draw('plot', a, k)

    def semilogy(self, *a, **k):
        return self._draw('plot', a, k)

    def loglog(self, *a, **k):
        return self._draw('plot', a, k)

    def get_legend_handles_labels(self):
        return ([Any() for _ in self.labels], list(self.labels))


class Fig(Any):
    def savefig(self, p, *a, **k):
        rec(ev='save', path=str(p))

    def show(self, *a, **k):
        rec(ev='show')


class Array(list):
    def _op(self, o, f):
        if isinstance(o, (list, tuple)):
            return Array(f(a, b) for a, b in zip(self, o))
        return Array(f(a, o) for a in self)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def tolist(self):
        return list(self)
