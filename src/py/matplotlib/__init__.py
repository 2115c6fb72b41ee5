from vrec import Any


class _Cycle:
    def __call__(self):
        while True:
            yield {'color': 'k'}

    def by_key(self):
        return {'color': ['k'] * 10}


class _Rc(dict):
    def __missing__(self, k):
        return Any()


rcParams = _Rc({'axes.prop_cycle': _Cycle()})


def use(*a, **k):
    pass


def __getattr__(n):
    if n.startswith('__') or n == 'pyplot':
        raise AttributeError(n)
    return Any()
