"""What all checks share: results, statistics, and the vocabulary of scenarios."""
import copy
import random
import re
from collections import Counter

from . import sim as S
from . import gen
from . import compare as C
from . import world as W

FILES = ['a.uff', 'b.uff', 'data/c.unv']


class Violation(Exception):
    """The property under check does not hold: cls names how (stable under minimisation)."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Abandon(Exception):
    """This run can say nothing about the property (something else is wrong before it matters)."""


class Stats:
    def __init__(self):
        self.runs = self.ops = self.syscalls = self.judged = self.abandoned = self.lines = self.threads = 0
        self.simtime = 0.0
        self.fired = Counter()
        self.probes = Counter()
        self.why = Counter()
        self.states = set()
        self.orders = set()
        self.logs = set()
        self.nontrivial = set()
        self.known = Counter()
        self.types = Counter()

    def absorb(self, sim):
        w = sim.w
        self.ops += sim.ops
        self.syscalls += w.total_calls
        self.simtime += w.mono
        self.fired.update(w.fired)
        self.states |= sim.states
        self.lines += sim.lines_used
        self.last_crc = w.log_crc

    def merge(self, o):
        for k in ('runs', 'ops', 'syscalls', 'judged', 'abandoned', 'lines', 'simtime', 'threads'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('fired', 'probes', 'why', 'known', 'types'):
            getattr(self, k).update(getattr(o, k))
        for k in ('states', 'orders', 'logs', 'nontrivial'):
            getattr(self, k).update(getattr(o, k))


class Check:
    id = ''
    quick, thorough = 1000, 40000
    lines = 0               # 1: line events, 2: instruction events as well
    rule = ''
    known = {}              # finding id -> what fails

    def gen(self, r, tier):
        raise NotImplementedError

    def execute(self, scn, st, run):
        """Runs the scenario; raises Violation."""
        raise NotImplementedError

    def concrete(self, scn):
        """The scenario with every decision of the scheduler written out."""
        return scn

    def probes(self, listed):
        """Known findings that still fail: [(finding id, what)]."""
        return []

    def run(self, scn, st=None, log=None):
        """One run: (violation or None, stats)."""
        st = st or Stats()
        st.runs += 1
        random.seed(0)
        S.np.random.seed(0)
        run = Run(scn, st, log is not None)
        judged = st.judged
        v = None
        try:
            self.execute(scn, st, run)
        except Violation as e:
            v = e
        except S.NotOpen as e:
            if e.outcome is None:
                raise
            if e.outcome.kind == 'raise' and not e.outcome.fired:
                v = Violation(self.id + ':open', 'constructing an instance raises %s' % e.outcome.exc)
            else:
                st.abandoned += 1
        except (Abandon, S.Unwritable) as e:
            st.abandoned += 1
            st.why[str(e)[:90]] += 1
        finally:
            crc = 0
            for s in run.sims:
                st.absorb(s)
                crc = crc * 31 + s.w.log_crc & 0xffffffffffff
                if log is not None:
                    log.extend(s.w.log)
                s.end()
            run.crc = crc
            st.last_crc = crc
            st.logs.add(crc)
            if st.judged > judged:
                st.nontrivial.add(crc)
        return v, st


class Run:
    def __init__(self, scn, st, log):
        self.scn, self.st, self.log = scn, st, log
        self.sims = []

    def sim(self):
        s = S.Sim(self.scn.get('knobs'), self.log)
        s.w.dirs.add(W.PREFIX + '/data')
        self.sims.append(s)
        return s


# ---- pieces of scenarios ------------------------------------------------------------------------------
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'NPT-5:45', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0',
         'NZST-12NZDT,M9.5.0,M4.1.0/3', 'HST10']


def gen_knobs(r, chunks=True):
    k = {}
    if r.random() < 0.6:
        k['buf'] = r.choice([16, 64, 100, 512, 4096])
    if chunks and r.random() < 0.35:
        k['chunk'] = r.choice([1, 2, 3, 7, 16, 61, 100, 512, 1000])
        if k['chunk'] < 16 and r.random() < 0.7:
            k['chunk'] = 16 + r.randrange(100)
    if r.random() < 0.3:
        k['tz'] = r.choice(ZONES)
    if r.random() < 0.3:
        k['mgran'] = r.choice([0, 1e-9, 1.0, 2.0, 3600.0])
    if r.random() < 0.3:
        k['tick'] = r.choice([1e-6, 0.01, 0.5])
    if r.random() < 0.3:
        # how callers write their calls
        k['call'] = r.choice(['upper', 'title', 'short', 'names', 'order'])
    return k


def gen_platform(r, k):
    """Sometimes a platform whose text files have other defaults than this one's."""
    if r.random() < 0.25:
        k['eol'] = '\r\n'
    if r.random() < 0.25:
        k['enc'] = r.choice(['cp1252', 'ascii', 'cp932', 'latin-1'])
    return k


def call_specs(r, n, types=None, small=True, **k):
    """The sets of one write_sets call; single precision is a matter of the whole call."""
    sp = r.random() < 0.25
    out = []
    for _ in range(n):
        s = gen.gen_spec(r, types, small_only=small, **k)
        if s['t'] == '58':
            s['o'].pop('sp', None)
            s['o'].pop('dp', None)
            if sp:
                s['o']['sp'] = 1
        out.append(s)
    return out


def force_double(specs):
    return not any(s.get('o', {}).get('sp') for s in specs)


def with_filler(r, sets, p=0.05):
    """Sometimes a long set of other software comes first (or very many short sets), so that these sets lie about a block boundary of the file."""
    k = r.random()
    if k < p * 0.06:
        # or a great many of them
        few = [{'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)} for _ in range(5)] + \
              [gen.gen_spec(r, ['164', '2400'], small_only=True) for _ in range(3)]
        return [dict(r.choice(few)) for _ in range(r.choice([40, 70, 110, 140, 260, 300, 520]))] + sets
    return [gen.gen_filler(r)] + sets if k < p else sets


def frac(r, n=3):
    """A fraction below 1 with few digits."""
    return int(r.random() * 10 ** n) / 10 ** n


class Entry:
    """A set a file holds, in the reference model."""
    __slots__ = ('canon', 'type', 'fmt', 'spec', 'raw')

    def __init__(self, spec):
        self.spec = spec
        self.canon, self.raw = S.canonical(spec)
        self.type = spec['u'] if 'u' in spec else int(spec['t'])
        self.fmt = 0 if 'u' in spec else gen.is_binary(spec)

    def __repr__(self):
        return 'set(%s)' % ('u%d' % self.spec['u'] if 'u' in self.spec else self.spec['t'])


def as_list(v, n=None):
    """read_sets returns the set itself when there is only one."""
    return v if isinstance(v, list) else [v]


def diff_content(sim, name, entries, st, header=False):
    """None, or (what, message): how the file differs from the model, seen through instance name."""
    o = sim.get(name, 'n')
    if not o.ok():
        return 'raise', 'get_n_sets raises %s' % o.exc
    if o.value != len(entries):
        return 'count', '%s sets instead of %d' % (o.value, len(entries))
    o = sim.get(name, 'types')
    if not o.ok() or o.value != [e.type for e in entries]:
        return 'types', 'types %s instead of %s' % (o.value if o.ok() else o.exc, [e.type for e in entries])
    o = sim.get(name, 'formats')
    if not o.ok() or o.value != [e.fmt for e in entries]:
        return 'formats', 'formats %s instead of %s' % (o.value if o.ok() else o.exc, [e.fmt for e in entries])
    if not entries:
        return None
    o = sim.read(name)
    if not o.ok():
        for i, e in enumerate(entries):
            o = sim.read(name, i)
            if not o.ok():
                return 'read-raise', 'reading set %d (type %d) raises %s' % (i, e.type, o.exc)
        return 'read-raise', 'read_sets() raises'
    got = as_list(o.value)
    if len(got) != len(entries):
        return 'count', 'read_sets() returns %d sets instead of %d' % (len(got), len(entries))
    for i, (g, e) in enumerate(zip(got, entries)):
        st.judged += 1
        if not C.same(g, e.canon):
            return 'differ', 'set %d (type %d) differs: %s' % (i, e.type, C.where(g, e.canon))
    return None


def prefix_matches(sim, name, path, old, new, st):
    """Which whole prefix of `new` follows `old` in the file?  (k, None) or (None, message)."""
    o = sim.open(name, path)
    if not o.ok():
        return None, 'opening raises %s' % o.exc
    o = sim.get(name, 'n')
    if not o.ok():
        return None, 'get_n_sets raises %s' % o.exc
    n = o.value
    if not len(old) <= n <= len(old) + len(new):
        return None, '%s sets, but %d before and %d in the call' % (n, len(old), len(new))
    k = n - len(old)
    d = diff_content(sim, name, old + new[:k], st)
    if d:
        return None, '%d of %d sets of the call present, but %s' % (k, len(new), d[1])
    return k, None


_TAIL = re.compile(rb'[^\r\n](    -1)[\s\0]*(?:-(?:1?\0+)?)?[\s\0]*\Z')


def lookalike_tail(data, ends=()):
    """Does this torn file end in a data row whose last value looks like a closing tag?  (known finding)

    ends: offsets where sets really end."""
    for m in re.finditer(rb'[^\r\n]    -1', data):
        if _TAIL.match(data, m.start()) and m.end() not in ends:
            return True
    return False
