"""What a set holds: C02 (fields), C12 (dates and times), C13 (saving again)."""
import copy as cp
import functools
import os
import time

from ..base import *
from .hist import benign

ASSUME = ['the simulated file system keeps single system calls apart and ends with what was written to it']


class C02(Check):
    id = 'C02'
    quick, thorough = 18000, 800000
    lists = ['sets', 'faults', 'rfaults']
    level = 'exploration'
    assumptions = ASSUME + ['the generator states for each field the value and the precision of its column independently of the code']
    rule = 'Random valid sets of every type and variant (directly or through prepare functions, optional fields present or ' \
           'not, arrays in any memory form, all sizes from empty to several hundred values, negative, tiny and huge numbers), written between other ' \
           'sets on a disk that transfers in pieces, read by the same, another or a restarted instance; every supplied ' \
           'field is compared with the value supplied, to the precision of its column.'

    def gen(self, r, tier):
        sets = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            sets += call_specs(r, 1, small=r.random() < 0.5) if r.random() < 0.3 else [gen.gen_spec(r)]
        gen.like_tags(r, sets)
        for x in sets:
            if r.random() < 0.15:
                x['o']['form'] = r.choice(gen.FORMS)
        return {'knobs': gen_platform(r, gen_knobs(r)), 'sets': sets, 'one': int(r.random() < 0.4), 'mode': r.choice(['add', 'overwrite']),
                'by': r.choice(['same', 'other', 'restart']), 'how': r.choice(['all', 'one', 'list']),
                'faults': benign(r), 'rfaults': benign(r, 0.15)}

    def bad(self, cls, msg):
        raise Violation('C02:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        f = FILES[0]
        s.open('u', f)
        built = []
        groups = []
        for x in scn['sets']:
            st.types['58b' if gen.is_binary(x) else x['t']] += 1
            o = s.call(lambda: s.materialize(x), label='prepare %s' % x['t'])
            if not o.ok():
                self.bad('prepare', 'preparing a valid set of type %s raises %s' % (x['t'], o.exc))
            d, b = o.value
            built.append((x, b))
            if groups and not scn.get('one') and groups[-1][1] == b.fd:
                groups[-1][0].append(d)
            else:
                groups.append(([d], b.fd))
        for n, (ds, fd) in enumerate(groups):
            o = s.write('u', ds if len(ds) > 1 else ds[0], scn['mode'] if n == 0 else 'add', fd, scn['faults'] if n == 0 else ())
            if not o.ok():
                self.bad('write', 'writing valid sets %s raises %s' % ([x['t'] for x in scn['sets']], o.exc))
        k = 'u'
        if scn['by'] != 'same':
            if scn['by'] == 'restart':
                s.restart()
            o = s.open('v', f)
            k = 'v'
            if not o.ok():
                self.bad('open', 'constructing an instance raises %s' % o.exc)
        got = []
        if scn['how'] == 'all':
            o = s.read(k, faults=scn['rfaults'])
            got = as_list(o.value) if o.ok() else None
        elif scn['how'] == 'list':
            o = s.read(k, list(range(len(built))), faults=scn['rfaults'])
            got = as_list(o.value) if o.ok() else None
        else:
            for i in range(len(built)):
                o = s.read(k, i, faults=scn['rfaults'] if i == 0 else ())
                if not o.ok():
                    self.bad('read', 'reading set %d (type %s) raises %s' % (i, built[i][0]['t'], o.exc))
                got.append(o.value)
        if got is None:
            for i in range(len(built)):
                o = s.read(k, i)
                if not o.ok():
                    self.bad('read', 'reading set %d (type %s) raises %s' % (i, built[i][0]['t'], o.exc))
            self.bad('read', 'read_sets raises')
        if len(got) != len(built):
            self.bad('count', '%d sets read, %d written' % (len(got), len(built)))
        for i, (g, (x, b)) in enumerate(zip(got, built)):
            st.judged += 1
            m = C.fits(g, b.expect)
            if m:
                self.bad('field', 'set %d, type %s%s: %s' % (i, x['t'], ' (prepared)' if b.prep else '', m))

    def probes(self, listed):
        """Numbers that fill their column in types that are read by splitting at blanks."""
        out = []
        for i, t, o in (('tiny-15', '15', {}), ('tiny-18', '18', {}), ('tiny-55', '55', {}), ('tiny-2414', '2414', {'an': 1, 'loc': 1}),
                        ('tiny-2414-5', '2414', {'an': 5}), ('tiny-2414-2', '2414', {'an': 1, 'loc': 2}),
                        ('tiny-2414-3', '2414', {'an': 1, 'loc': 3}), ('tiny-1858', '1858', {}), ('tiny-2420', '2420', {}),
                        ('tiny-164', '164', {}), ('tiny-58', '58', {})):
            scn = {'knobs': {}, 'sets': [{'t': t, 's': 1, 'n': 3, 'o': dict(o, tiny=1)}], 'one': 1, 'mode': 'add', 'by': 'same',
                   'how': 'all', 'faults': [], 'rfaults': []}
            v, _ = self.run(scn)
            if v:
                out.append((i, v.msg, scn))
        return out


# --------------------------------------------------------------------------------------------------------------
PAIRS = {'c': ('date_db_created', 'time_db_created'), 's': ('date_db_saved', 'time_db_saved'),
         'w': ('date_file_written', 'time_file_written')}


class C12(Check):
    id = 'C12'
    quick, thorough = 24000, 800000
    lists = ['ops', 'rfaults']
    level = 'exploration'
    assumptions = ASSUME + ['local time zones as the C library computes them']
    rule = 'Writes of header sets (type 151) with any subset of dates and times given, directly or through prepare_151, at ' \
           'simulated instants around second, minute, hour, day, year and daylight-saving boundaries in several zones, with ' \
           'time passing at every clock reading and system call, stalls up to days and clock jumps; all filled-in dates ' \
           'and times must be one instant of the simulated clock during the write. Sets are re-saved later at other times.'

    # instants at which something rolls over (UTC), and the zones' changes of daylight-saving time
    BASE = [1703980800, 1704067200, 1709164800, 1711846800, 1711933200, 1729990800, 1710054000, 1730613600, 1735689600,
            951782400, 978307200, 1577836800, 2147483648, 86400, 1700000000, 4102444800]

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            op = {'op': 'write', 'spec': {'t': '151', 's': r.randrange(10 ** 6), 'n': 1,
                                          'o': {'given': ''.join(c for c in 'csw' if r.random() < 0.35)}},
                  'faults': []}
            if r.random() < 0.4:
                op['spec']['o']['prep'] = 1
            if r.random() < 0.3:
                op['spec']['o']['half'] = r.choice(['date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved',
                                       'date_file_written', 'time_file_written'])
            if r.random() < 0.3:
                op['before'] = call_specs(r, 1)
            for _ in range(r.choice([0, 0, 1, 2])):
                k = r.random()
                if k < 0.5:
                    op['faults'].append({'sys': 'time', 'nth': r.randint(1, 8), 'kind': 'stall',
                                         'arg': r.choice([0.4, 1.0, 30.0, 3600.0, 86400.0, 1e7])})
                elif k < 0.8:
                    op['faults'].append({'sys': 'time', 'nth': r.randint(1, 8), 'kind': 'jump',
                                         'arg': r.choice([-1.0, -3600.0, 3600.0, -86400.0, 5.0, -0.5])})
                else:
                    op['faults'].append({'sys': '*', 'nth': r.randint(1, 8), 'kind': r.choice(['stall', 'jump']),
                                         'arg': r.choice([1.0, 3600.0, 1e5])})
            op['wait'] = r.choice([0, 0, 0.5, 7.0, 3600.0, 1e6])
            if r.random() < 0.3:
                op['between'] = r.choice([1.0, 50.0, 3600.0, 43200.0, 86400.0, 1e6])
            if r.random() < 0.35:
                op['again'] = 1         # the same dictionary is used for the next write too
            ops.append(op)
            if r.random() < 0.4:
                ops.append({'op': 'resave', 'wait': r.choice([1.0, 86400.0, 4e6]), 'restart': int(r.random() < 0.5)})
        kn = {'t0': r.choice(self.BASE) + r.choice([0.0, -0.001, -1.0, -0.5, r.uniform(-90000, 90000), r.uniform(-4000, 4000)]),
              'tcost': r.choice([0.0, 1e-6, 0.1, 0.3, 1.0, 61.0]), 'tick': r.choice([1e-6, 1e-4, 0.2])}
        if kn['t0'] < 90000:
            kn['t0'] += 90000
        if r.random() < 0.7:
            kn['tz'] = r.choice(ZONES)
        return {'knobs': kn, 'ops': ops}

    def bad(self, cls, msg):
        raise Violation('C12:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        f = FILES[0]
        s.open('u', f)
        n = 0                       # sets in the file
        reuse = None
        for i, op in enumerate(scn['ops']):
            s.w.advance(op.get('wait', 0))
            if op['op'] == 'write':
                if op.get('before'):
                    o = s.call(lambda: s.materialize(op['before'][0]), label='prepare')
                    if o.ok() and s.write('u', o.value[0], 'add', force_double(op['before'])).ok():
                        n += 1
                if reuse is not None:
                    d, filled = reuse
                else:
                    o = s.call(lambda: s.materialize(op['spec']), label='prepare')
                    if not o.ok():
                        self.bad('prepare', 'prepare_151 raises %s' % o.exc)
                    d, b = o.value
                    given = {k: v[0] for k, v in b.expect.items() if k.startswith(('date_', 'time_'))}
                    filled = given
                    # prepared now, written later
                    s.w.advance(op.get('between', 0))
                o = s.write('u', d, 'add', True, op['faults'])
                if not o.ok():
                    self.bad('write', 'op %d: writing a header set raises %s' % (i, o.exc))
                n += 1
                g = s.read('u', n - 1)
                if not g.ok() or not isinstance(g.value, dict) or g.value.get('type') != 151:
                    raise Abandon('the header set cannot be read')
                g = g.value
                self.judge(i, g, filled, o.readings, scn, st)
                reuse = None
                if op.get('again'):
                    # the dictionary now may carry the dates of this write
                    kept = dict(filled)
                    for a, b_ in PAIRS.values():
                        for k in (a, b_):
                            if k in d:
                                kept[k] = str(d[k])
                    reuse = (d, kept)
            elif n:
                if op.get('restart'):
                    s.restart()
                    s.open('u', f)
                o = s.read('u')
                if not o.ok():
                    raise Abandon('the file cannot be read')
                old = [cp.deepcopy(x) for x in as_list(o.value)]
                o = s.write('u', as_list(o.value), 'overwrite')
                if not o.ok():
                    self.bad('resave', 'op %d: saving again raises %s' % (i, o.exc))
                o = s.read('u')
                if not o.ok():
                    raise Abandon('the file cannot be read')
                for a, b in zip(old, as_list(o.value)):
                    if a['type'] != 151:
                        continue
                    st.judged += 1
                    for p in PAIRS.values():
                        for k in p:
                            if str(a.get(k)).strip() != str(b.get(k)).strip():
                                self.bad('resave', 'op %d: %s was %r and is %r after saving again' % (i, k, a.get(k), b.get(k)))

    def judge(self, i, g, given, readings, scn, st):
        free = {}
        for p in PAIRS.values():
            for k in p:
                st.judged += 1
                if k in given:
                    if str(g.get(k)).strip() != given[k].strip():
                        self.bad('given', 'op %d: %s was given as %r and is read as %r' % (i, k, given[k], g.get(k)))
                else:
                    free[k] = str(g.get(k))
        if not free:
            return
        st.probes['writes that fill in dates'] += 1
        dates = {v for k, v in free.items() if k.startswith('date')}
        times = {v for k, v in free.items() if k.startswith('time')}
        if len(dates) > 1 or len(times) > 1:
            self.bad('two-instants', 'op %d: filled in from different instants: %s' % (i, free))
        da, ti = (dates or {None}).pop(), (times or {None}).pop()
        os.environ['TZ'] = scn['knobs'].get('tz', 'UTC0')
        time.tzset()
        if len(readings) > 1 or int(readings[0][0]) != int(readings[-1][1]):
            st.probes['writes during which the second changes'] += 1
        for a, b in readings:
            lo, hi = int(a // 1), int(b // 1)
            if da is None or ti is None:
                span = range(lo, min(hi, lo + 86400 * 2) + 1) if ti is not None else range(lo, hi + 1, 3600)
                for t in list(span) + [hi]:
                    x = time.localtime(t)
                    if (da is None or time.strftime('%d-%b-%y', x) == da) and (ti is None or time.strftime('%H:%M:%S', x) == ti):
                        return
                continue
            try:
                x = time.strptime(da + ' ' + ti, '%d-%b-%y %H:%M:%S')
            except ValueError:
                self.bad('format', 'op %d: %r %r' % (i, da, ti))
            for y in (x.tm_year, x.tm_year - 100, x.tm_year + 100):
                for dst in (0, 1, -1):
                    try:
                        t = time.mktime((y,) + tuple(x)[1:8] + (dst,))
                    except (OverflowError, ValueError):
                        continue
                    lt = time.localtime(t)
                    if lo <= t <= hi and time.strftime('%d-%b-%y %H:%M:%S', lt) == da + ' ' + ti:
                        return
        self.bad('not-now', 'op %d: %s %s is not an instant of the write: %s' % (i, da, ti, [
            [time.strftime('%d-%b-%y %H:%M:%S', time.localtime(y)) for y in x] for x in readings]))


# --------------------------------------------------------------------------------------------------------------
SAMPLES = ['1858.uff', 'Artemis export - Geometry RPBC_setup_05_14102016_105117.uff', 'TestLab 161 164 18 15 82.uff',
           'binary8byte.uff', 'dataset_milestone_in_header.uff', 'groups_test.uff', 'heat_engine_housing.uff',
           'mesh_Oros-modal_uff15_uff2412.uff', 'mesh_test_uff2412_mixed.uff', 'non_ascii_header.uff',
           'time-history-not-all-columns-filled.uff', 'uff55 sample_test record10.uff', 'uff55_translation.uff',
           'uff55_translation_rotation.uff']
LAYOUT = ('ord_data_type', 'n_bytes', 'num_pts')


@functools.lru_cache(None)
def sample(name):
    p = os.path.join(S.REPO, 'data', name)
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def nearly(a, b):
    """Equal up to what the columns of the format hold."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(k in LAYOUT or nearly(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(nearly(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = S.np.asarray(a), S.np.asarray(b)
        if x.dtype.kind not in 'iufcb' or y.dtype.kind not in 'iufcb':
            return C.same(a, b)
        return x.shape == y.shape and bool(S.np.allclose(x, y, rtol=2e-5, atol=0, equal_nan=True))
    except (TypeError, ValueError):
        return C.same(a, b)


class C13(Check):
    id = 'C13'
    quick, thorough = 12000, 500000
    lists = ['sets', 'gens']
    level = 'exploration'
    assumptions = ASSUME + ['sample files of the repository stand for files of other software']
    rule = 'Files of 1-5 random sets, or sample files of other software, are read and saved again through 1-4 generations ' \
           '(one set at a time, all at once, to the same or another file, by the same or a restarted program, with other ' \
           'sets saved in between, partial transfers); every generation must read equal to the one before.'

    def gen(self, r, tier):
        scn = {'knobs': gen_platform(r, gen_knobs(r)), 'sets': [], 'gens': []}
        if r.random() < 0.2:
            scn['sample'] = r.choice(SAMPLES)
        else:
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                x = gen.gen_spec(r, small_only=r.random() < 0.8)
                if r.random() < 0.07:
                    x = {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)}
                scn['sets'].append(x)
            gen.like_tags(r, scn['sets'])
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            scn['gens'].append({'to': r.choice(['same', 'other', 'other', 'append']), 'how': r.choice(['all', 'all', 'one', 'single']),
                                'restart': int(r.random() < 0.4), 'twice': int(r.random() < 0.2), 'fd': int(r.random() < 0.8),
                                'faults': benign(r, 0.2), 'rfaults': benign(r, 0.15)})
        return scn

    def bad(self, cls, msg):
        raise Violation('C13:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        name = 'g0.uff'
        exact = True
        if scn.get('sample'):
            b = sample(scn['sample'])
            if b is None:
                raise Abandon('sample file is missing')
            s.w.put(name, b)
            exact = False
            st.probes['files of other software'] += 1
        else:
            # what the sets read like is fixed by canonical(); here only its bytes are needed
            s.w.put(name, b''.join(Entry(x).raw for x in scn['sets']))
            for x in scn['sets']:
                st.types['u' if 'u' in x else '58b' if gen.is_binary(x) else x['t']] += 1
        o = s.open('u', name)
        if not o.ok():
            raise Abandon('the file cannot be opened')
        o = s.read('u')
        if not o.ok():
            raise Abandon('the file cannot be read: %s' % o.exc)
        got = as_list(o.value)
        single = any(x.get('o', {}).get('sp') for x in scn['sets']) or not exact
        for n, g in enumerate(scn['gens']):
            keep = [x for x in got if list(x) != ['type']]         # sets of unsupported types cannot be written
            want = cp.deepcopy(keep)
            if not want:
                raise Abandon('nothing to save')
            if g['restart']:
                s.restart()
                s.open('u', name)
                o = s.read('u')
                if not o.ok():
                    raise Abandon('the file cannot be read')
                keep = [x for x in as_list(o.value) if list(x) != ['type']]
            fd = bool(g['fd'])
            new = name if g['to'] == 'same' else 'g%d.uff' % (n + 1)
            k = 'u'
            if new != name:
                k = 'v%d' % n
                s.open(k, new)
            pre = []
            if g['to'] == 'append':
                pre = [{'t': '164', 's': 5, 'n': 1, 'o': {}}]
                e = Entry(pre[0])
                s.w.put(new, e.raw)
                pre = [e.canon]
                s.get(k, 'refresh')
            mode = 'overwrite' if g['to'] != 'append' else 'add'
            calls = [keep] if g['how'] == 'all' else [[x] for x in keep]
            for i, ds in enumerate(calls):
                o = s.write(k, ds[0] if g['how'] == 'single' and len(ds) == 1 else ds, mode if i == 0 else 'add', fd,
                            g['faults'] if i == 0 else ())
                if not o.ok():
                    self.bad('write', 'generation %d: a set that was read (type %s) cannot be written: %s'
                             % (n + 1, [x.get('type') for x in ds], o.exc))
            if g['twice'] and g['to'] == 'append':
                # the same dictionaries once more
                for ds in calls:
                    o = s.write(k, ds, 'add', fd)
                    if not o.ok():
                        self.bad('write', 'generation %d: a second writing of the same sets raises %s' % (n + 1, o.exc))
                pre = pre + want
            o = s.read(k, faults=g['rfaults'])
            if not o.ok():
                self.bad('read', 'generation %d cannot be read: %s' % (n + 1, o.exc))
            got = as_list(o.value)
            full = pre + want
            if len(got) != len(full):
                self.bad('count', 'generation %d has %d sets instead of %d' % (n + 1, len(got), len(full)))
            for i, (a, b) in enumerate(zip(got, full)):
                st.judged += 1
                same = C.same(a, b)
                if not same and single and isinstance(b, dict) and b.get('type') == 58 and fd:
                    # single precision is saved as double: same data, another layout
                    same = C.same({x: a[x] for x in a if x not in LAYOUT}, {x: b[x] for x in b if x not in LAYOUT})
                if not same and not exact and n == 0:
                    same = nearly(a, b)
                if not same and not fd and isinstance(b, dict) and b.get('type') == 58:
                    # saved in single precision on request
                    same = nearly(a, b)
                if not same:
                    self.bad('differ', 'generation %d: set %d (type %s) differs: %s' % (n + 1, i, b.get('type'), C.where(a, b)))
            got = got[len(pre):][-len(want):]
            # a restarted program would read `pre` again
            if pre and n + 1 < len(scn['gens']):
                o = s.read(k)
                got = as_list(o.value)
            name = new
            s.inst['u'] = s.inst[k]
