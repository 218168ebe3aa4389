"""Comparing data-sets: strictly with each other, and with the expectations of gen.py."""
import hashlib
import pickle
import numpy as np


def _num(v):
    return isinstance(v, (int, float, complex, np.number, bool, np.bool_))


def same(a, b):
    """Strict equality of two read results; NaN equals NaN."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind == 'O':
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if _num(a) and _num(b):
        return bool(a == b) or (a != a and b != b)
    return type(a) is type(b) and a == b


def where(a, b, path=''):
    """Where two results differ (for messages)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s[%r] only in %s' % (path, k, 'first' if k in a else 'second')
            if not same(a[k], b[k]):
                return where(a[k], b[k], '%s[%r]' % (path, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, '%s[%d]' % (path, i))
    return '%s: %s / %s' % (path, short(a), short(b))


def short(v, n=120):
    s = repr(v).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def digest(v):
    h = hashlib.sha256()

    def go(v):
        if isinstance(v, dict):
            h.update(b'{')
            for k in sorted(v, key=str):
                h.update(str(k).encode('utf-8', 'replace'))
                go(v[k])
            h.update(b'}')
        elif isinstance(v, (list, tuple)):
            h.update(b'[')
            for x in v:
                go(x)
            h.update(b']')
        elif isinstance(v, np.ndarray) and v.dtype.kind != 'O':
            h.update(str(v.shape).encode() + v.dtype.kind.encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, np.ndarray):
            go(v.tolist())
        else:
            h.update(repr(v.item() if isinstance(v, np.generic) else v).encode('utf-8', 'replace'))
    go(v)
    return h.hexdigest()[:16]


def _close(got, want, k):
    with np.errstate(all='ignore'):
        for g, w in ((got.real, want.real), (got.imag, want.imag)):
            tol = 0.5000001 * 10.0 ** -k * np.abs(w) * (10.0 if False else 1.0)
            # a mantissa with k decimals: half a unit of the last place, relative to the power of ten
            ex = np.floor(np.log10(np.where(w == 0, 1.0, np.abs(w))))
            tol = np.maximum(tol, 0.5000001 * 10.0 ** -k * 10.0 ** ex)
            tol = np.where(w == 0, 0.0, tol * (1 + 1e-9) + np.abs(w) * 4e-16)
            if not np.all(np.abs(g - w) <= tol):
                return False
    return True


def field(got, want, tol):
    """None if the read value fits, otherwise a message."""
    if tol == 's':
        if isinstance(want, (list, tuple)):
            if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(want):
                return '%s instead of %s' % (short(got), short(want))
            for g, w in zip(got, want):
                if str(g) != w:
                    return '%s instead of %s' % (short(g), short(w))
            return None
        return None if isinstance(got, str) and got == want else '%s instead of %s' % (short(got), short(want))
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s instead of %s' % (short(got), short(want))
        for k in want:
            if k not in got:
                return 'no %r' % k
            m = field(got[k], want[k], tol)
            if m:
                return '%r: %s' % (k, m)
        return None
    if tol == 'sub':
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return '%s instead of %d items' % (short(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            for k in w:
                if k not in g:
                    return '[%d] no %r' % (i, k)
                m = field(g[k], w[k], 's' if isinstance(w[k], str) else 'i')
                if m:
                    return '[%d][%r] %s' % (i, k, m)
        return None
    if isinstance(want, (list, tuple)) and (not len(want) or not _num(want[0])):
        # nested: element by element
        if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(want):
            return '%s instead of %s' % (short(got), short(want))
        for i, (g, w) in enumerate(zip(got, want)):
            m = field(g, w, tol)
            if m:
                return '[%d] %s' % (i, m)
        return None
    try:
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype.kind not in 'iufcb':
            if g.size or w.size:
                return '%s instead of %s' % (short(got), short(want))
            return None
    except Exception:
        return '%s instead of %s' % (short(got), short(want))
    if g.size == 0 and w.size == 0:
        return None
    if g.shape != w.shape:
        return 'shape %s instead of %s: %s' % (g.shape, w.shape, short(got))
    if tol == 'i':
        # (lists of labels are given as arrays of numbers; a single integer is one)
        ok = np.array_equal(g, w) and (w.shape or g.dtype.kind in 'iu')
    elif tol == 'x':
        ok = np.array_equal(g.astype(complex), w.astype(complex), equal_nan=True)
    elif isinstance(tol, tuple):
        ok = np.all(np.abs(g - w) <= tol[1])
    else:
        ok = _close(g.astype(complex), w.astype(complex), tol)
    if ok:
        return None
    if g.shape:
        bad = [i for i in np.ndindex(*g.shape) if g[i] != w[i]][:1]
        return '%s: %r instead of %r' % (list(bad[0]) if bad else '', g[bad[0]] if bad else g, w[bad[0]] if bad else w)
    return '%s instead of %s' % (short(got), short(want))


def fits(got, expect):
    """None if a read set has all the expected fields."""
    if not isinstance(got, dict):
        return 'read %s' % short(got)
    for k, (want, tol) in expect.items():
        if k not in got:
            return 'field %r is missing' % k
        m = field(got[k], want, tol)
        if m:
            return 'field %r: %s' % (k, m)
    return None
