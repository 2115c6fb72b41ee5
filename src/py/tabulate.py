from vrec import rec


def tabulate(table, headers=(), **k):
    rec(ev='table', headers=[str(h) for h in headers], rows=[list(r) for r in table])
    return '\n'.join(' '.join(str(c) for c in r) for r in table)
