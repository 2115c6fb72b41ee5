import math
from vrec import Any, Array


def array(x, *a, **k):
    return Array(x)


asarray = array
sqrt, log, log10 = math.sqrt, math.log, math.log10
nan, inf = math.nan, math.inf


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return Any()
