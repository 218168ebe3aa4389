from ..base import Check


def all_checks():
    from . import hist, disk, view, repair, many, fidelity, handed, exchange, host
    out = {}
    for m in (hist, disk, view, repair, many, fidelity, handed, exchange, host):
        for x in vars(m).values():
            if isinstance(x, type) and issubclass(x, Check) and x.id and x.__module__ == m.__name__:
                out[x.id] = x
    return out


def get(i):
    c = all_checks()
    if i not in c:
        raise SystemExit('no check %r; there are: %s' % (i, ' '.join(sorted(c))))
    return c[i]()
