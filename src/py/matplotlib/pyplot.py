import vrec
from vrec import Any, Axes, Fig, rec
from . import rcParams

_cur = []


def subplots(nrows=1, ncols=1, **k):
    rec(ev='figure', n=nrows * ncols)
    a = [Axes(i) for i in range(nrows * ncols)]
    _cur[:] = a[:1]
    return Fig(), (a[0] if len(a) == 1 else tuple(a))


def figure(*a, **k):
    rec(ev='figure', n=1)
    _cur[:] = [Axes(0)]
    return Fig()


def gca():
    if not _cur:
        figure()
    return _cur[0]


def plot(*a, **k):
    return gca().plot(*a, **k)


def savefig(p, *a, **k):
    rec(ev='save', path=str(p))


def show(*a, **k):
    rec(ev='show')


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return Any()
