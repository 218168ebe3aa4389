"""The program pyuff runs in: C25 (its settings do not change the results, and calls leave them alone)."""
import decimal
import gc
import locale
import os
import random
import signal
import sys
import time
import warnings

from ..base import *
from .disk import Mixed, os_splitext
from .view import ASSUME

np = S.np
PLAIN = {'divide': 'ignore', 'over': 'ignore', 'under': 'ignore', 'invalid': 'ignore'}


class Host:
    """Settings a program may have made before it calls pyuff."""

    def __init__(self, conf):
        self.conf = conf

    def __enter__(self):
        c = self.conf
        self.env = dict(os.environ)
        self.out = sys.stdout, sys.stderr
        self.filters = warnings.filters[:]
        self.rand = random.getstate(), np.random.get_state()
        np.seterr(**PLAIN)
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
        if 'print' in c:
            np.set_printoptions(**c['print'])
        if 'err' in c:
            np.seterr(**{k: 'raise' for k in c['err']})
        if 'warn' in c:
            warnings.resetwarnings()
            warnings.simplefilter('ignore')
            for n in c['warn']:
                warnings.simplefilter('error', {'R': RuntimeWarning, 'U': UserWarning}[n])
        if 'dec' in c:
            decimal.getcontext().prec = c['dec']
            decimal.getcontext().rounding = decimal.ROUND_UP
        if 'loc' in c:
            locale.setlocale(locale.LC_ALL, c['loc'])
        if 'seed' in c:
            random.seed(c['seed'])
            np.random.seed(c['seed'])
        if 'gc' in c:
            gc.enable()
        if 'out' in c:
            sys.stdout = sys.stderr = None
        for k, v in c.get('env', {}).items():
            os.environ[k] = v
        if 'umask' in c:
            os.umask(c['umask'])
        if 'bufsize' in c:
            np.setbufsize(c['bufsize'])
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.out
        gc.disable()
        os.umask(0o22)
        np.setbufsize(8192)
        np.set_printoptions(precision=8, threshold=1000, edgeitems=3, linewidth=75, suppress=False, nanstr='nan', infstr='inf',
                            sign='-', formatter=None, floatmode='maxprec', legacy=False)
        np.seterr(**PLAIN)
        decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
        locale.setlocale(locale.LC_ALL, 'C')
        random.setstate(self.rand[0])
        np.random.set_state(self.rand[1])
        for k in set(os.environ) - set(self.env):
            del os.environ[k]
        for k, v in self.env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        if os.environ.get('TZ') != self.tz0():
            time.tzset()
        warnings.filters[:] = self.filters
        warnings._filters_mutated()

    def tz0(self):
        return self.env.get('TZ')


def settings():
    """What calls must leave as it is."""
    um = os.umask(0o22)
    os.umask(um)
    c = decimal.getcontext()
    return {
        'numpy error handling': np.geterr(), 'numpy print options': repr(np.get_printoptions()), 'numpy buffer size': np.getbufsize(),
        'warning filters': [repr(x) for x in warnings.filters], 'warning display': warnings.showwarning,
        'decimal context': repr(c), 'locale': locale.setlocale(locale.LC_ALL), 'environment': dict(os.environ),
        'random state': hash(random.getstate()),
        'numpy random state': hash(repr([x.tobytes() if hasattr(x, 'tobytes') else x for x in np.random.get_state()])),
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'output': (sys.stdout, sys.stderr),
        'collector': (gc.isenabled(), gc.get_threshold()), 'signal handlers': [signal.getsignal(x) for x in (2, 13, 14, 15)],
        'umask': um, 'time zone': time.tzname, 'digits limit': sys.get_int_max_str_digits(), 'path': list(sys.path),
        'trace': (sys.gettrace(), sys.getprofile()), 'hooks': (sys.excepthook, sys.displayhook),
    }


def gen_host(r):
    c = {}
    if r.random() < 0.6:
        p = c['print'] = {}
        for k, v in (('precision', [1, 2, 17]), ('threshold', [0, 3, 10 ** 9]), ('suppress', [True]), ('linewidth', [10, 1000]),
                     ('sign', ['+', ' ']), ('floatmode', ['fixed', 'unique', 'maxprec_equal']), ('edgeitems', [1]), ('nanstr', ['?']),
                     ('legacy', ['1.13', '1.21'])):
            if r.random() < 0.4:
                p[k] = r.choice(v)
    if r.random() < 0.5:
        c['err'] = r.choice([['divide', 'invalid'], ['invalid'], ['divide']])
    if r.random() < 0.5:
        c['warn'] = r.choice(['R', 'U', 'RU'])
    if r.random() < 0.4:
        c['dec'] = r.choice([1, 3, 50])
    if r.random() < 0.3:
        c['loc'] = r.choice(['C.utf8', 'POSIX'])
    if r.random() < 0.5:
        c['seed'] = r.randrange(10 ** 6)
    if r.random() < 0.1:
        c['gc'] = 1
    if r.random() < 0.2:
        c['out'] = 1
    if r.random() < 0.3:
        c['env'] = {k: v for k, v in (('LANG', 'de_DE.UTF-8'), ('LC_NUMERIC', 'de_DE'), ('HOME', '/nowhere'), ('TMPDIR', '/nowhere'),
                                      ('PYTHONIOENCODING', 'ascii'), ('COLUMNS', '20')) if r.random() < 0.5}
    if r.random() < 0.3:
        c['umask'] = r.choice([0, 0o77, 0o2])
    if r.random() < 0.2:
        c['bufsize'] = r.choice([16, 1600])
    return c


class C25(Mixed):
    id = 'C25'
    quick, thorough = 9000, 350000
    lines = 1
    lists = ['ops', 'decoys']
    assumptions = ASSUME + ['programs do not forbid numpy to underflow or overflow, do not turn deprecation warnings into errors, and '
                            'their standard output takes the text printed by fix_58b']
    rule = 'Random histories of all operations are run twice from the same seed: in a plain program, and in one with other numpy error ' \
           'handling, print options and buffers, warnings as errors, decimal context, locale, environment, random states, no ' \
           'standard output; results and files must be the same after every operation. In a part of the runs system calls, ' \
           'allocations or lines fail. After every call, failed or not, all settings must be as they were before it.'

    def gen(self, r, tier):
        scn = super().gen(r, tier)
        if r.random() < 0.6:
            for op in scn['ops']:
                op['faults'] = [] if 'faults' in op else None
                if op['faults'] is None:
                    del op['faults']
        for op in scn['ops']:
            op['faults'] = [f for f in op.get('faults', ()) if f['kind'] not in ('crash', 'power')]
            if op['op'] == 'read' and r.random() < 0.3:
                op['conv'] = 1
        scn['host'] = gen_host(r)
        return scn

    # every call is made under the settings; the harness works without them
    def enter(self, msg):
        self.msg = msg
        self.host = Host(self.conf)
        self.host.__enter__()
        self.was = settings()

    def leave(self, o):
        now = settings()
        self.host.__exit__()
        self.host = None
        for k in now:
            if now[k] != self.was[k]:
                raise Violation('C25:' + k.replace(' ', '-'), '%s (%s) changes the %s of the program: %s -> %s' % (
                    self.msg, o, k, C.short(self.was[k], 200), C.short(now[k], 200)))

    def note(self, what, o):
        v = o.value if o.kind == 'ok' and not hasattr(o.value, 'write_sets') else None
        self.trace.append((what, o.kind, o.exc, v, {p: hash_bytes(b) for p, b in self.s.w.snapshot().items()} if self.files else None))

    def dict_of(self, spec):
        i = spec.get('id')
        if i is not None and i in self.dicts:
            return self.dicts[i]
        x = {k: v for k, v in spec.items() if k != 'id'}
        self.enter('preparing a set of type %s' % spec.get('t', spec.get('bad', spec.get('u'))))
        o = self.s.call(lambda: self.s.materialize(x), label='prepare')
        self.leave(o)
        self.trace.append(('prepare %s' % x, o.kind, o.exc, o.value[0] if o.ok() else None, None))
        if not o.ok():
            raise Abandon('prepare raises %s' % o.exc)
        if i is not None:
            self.dicts[i] = o.value[0]
        return o.value[0]

    def prepare(self, n, op):
        self.enter('op %d: %s' % (n, op['op']))

    def judge(self, n, op, o, own):
        self.leave(o)
        self.st.judged += 1
        self.note('op %d: %s' % (n, op['op']), o)
        if op['op'] == 'read' and op.get('conv') and o.ok():
            sets = as_list(o.value)
            if any('type' not in x for x in sets):
                return
            self.enter('op %d: convert_dataset_2412_to_82' % n)
            q = self.s.call(lambda: self.s.pyuff.convert_dataset_2412_to_82(sets), label='convert')
            self.leave(q)
            self.note('op %d: convert' % n, q)

    def execute(self, scn, st, run):
        faulty = any(op.get('faults') for op in scn['ops'])
        traces = []
        for conf in ({'seed': 1}, scn['host']):
            self.conf, self.trace, self.host, self.files = conf, [], None, not faulty
            try:
                super().execute(scn, st, run)
            finally:
                if self.host is not None:
                    self.host.__exit__()
                    self.host = None
            traces.append(self.trace)
            st.probes['settings: ' + ('plain' if conf == {'seed': 1} else ' '.join(sorted(conf)))] += 1
        if faulty:
            return
        for a, b in zip(*traces):
            if a[0] != b[0]:
                break
            if a[1:3] != b[1:3]:
                raise Violation('C25:outcome', '%s: %s %s, but under other settings of the program (%s): %s %s' % (
                    a[0], a[1], a[2] or '', scn['host'], b[1], b[2] or ''))
            if not C.same(a[3], b[3]):
                raise Violation('C25:result', '%s: the result depends on the settings of the program (%s): %s' % (
                    a[0], scn['host'], C.where(a[3], b[3])))
            if a[4] != b[4]:
                raise Violation('C25:file', '%s: the file depends on the settings of the program (%s)' % (a[0], scn['host']))
        if len(traces[0]) != len(traces[1]):
            raise Violation('C25:outcome', 'other operations are possible under other settings of the program (%s)' % scn['host'])


def hash_bytes(b):
    import hashlib
    return hashlib.sha256(b).hexdigest()
