"""Another program works on the same files: C19 (its sets are read), C20 (its meshes), C21 (it reads pyuff's sets)."""
from .. import foreign as F
from ..base import *
from .hist import benign

ASSUME = ['the other program follows the published layouts, as restated in foreign.py independently of pyuff',
          'the simulated file system keeps single system calls apart and ends with what was written to it']


class Theirs:
    """A set the other program has written."""
    def __init__(self, x):
        self.raw, self.expect = F.emit(x['spec'], x['style'])
        if x.get('last'):
            self.raw = self.raw.rstrip(b'\r\n')
        self.type, self.fmt = int(x['spec']['t']), gen.is_binary(x['spec'])
        self.spec = x['spec']
        self.may_raise = self.type == 55 and self.expect['n_data_per_node'][0] not in (3, 6)

    def differs(self, g, head):
        e = self.expect
        if head and self.type == 58:
            if not isinstance(g, dict) or g.get('x') is not None or g.get('data') is not None:
                return 'header_only gives data'
            e = {k: v for k, v in e.items() if k not in ('x', 'data')}
        if isinstance(g, dict) and g.get('type') != self.type:
            return 'type %s' % g.get('type')
        return C.fits(g, e)


class Ours(Entry):
    """A set pyuff has written."""
    may_raise = False

    def differs(self, g, head):
        c = dict(self.canon, x=None, data=None) if head and self.type == 58 else self.canon
        return None if C.same(g, c) else C.where(g, c)


def plain(r, **k):
    x = gen.gen_spec(r, **k)
    for q in ('prep', 'tag', 'nan'):
        x['o'].pop(q, None)
    return x


class Exchange(Check):
    level = 'exploration'
    assumptions = ASSUME
    lists = ['ops', 'sets']

    def bad(self, cls, msg):
        raise Violation('%s:%s' % (self.id, cls), msg)

    def count(self, x):
        self.st.types['58b' if gen.is_binary(x) else x['t']] += 1

    def append(self, f, raw):
        w = self.s.w
        old = w.get(f) or b''
        if old and not old.endswith((b'\n', b'\r')):
            raw = b'\n' + raw
        return old, raw


class C19(Exchange):
    id = 'C19'
    quick, thorough = 32000, 1200000
    rule = 'Another program creates and extends files in its own notation (1P, 0P and F numbers, few digits, E, e and D ' \
           'exponents, LF and CRLF, records padded to 80 columns or stripped, padded tags, big-endian binary data, closing tag ' \
           'behind or below binary data, mixed element types, no final line end), in one piece or in two with a look in ' \
           'between; pyuff instances, also of restarted processes, open, refresh, read in every way and add sets of their ' \
           'own; each set must be there with exactly the values that were recorded.'

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            k = r.random()
            f = r.choice([0, 0, 0, 1])
            if k < 0.6 or not ops:
                op = {'op': 'foreign', 'f': f, 'how': r.choice(['append', 'append', 'append', 'create']), 'sets': []}
                for _ in range(r.choice([1, 1, 2, 3])):
                    op['sets'].append({'spec': plain(r, small_only=r.random() < 0.85), 'style': F.gen_style(r)})
                    if r.random() < 0.3:
                        op['sets'][-1]['style']['ndv'] = r.choice([1, 2, 4, 5])
                if r.random() < 0.3:
                    # one program, one notation
                    for x in op['sets']:
                        x['style'] = op['sets'][0]['style']
                if r.random() < 0.12:
                    op['sets'][-1]['last'] = 1
                if r.random() < 0.35:
                    op['cut'] = frac(r)
                ops.append(op)
            elif k < 0.85:
                ops.append({'op': 'add', 'f': f, 'sets': call_specs(r, r.choice([1, 1, 2])), 'faults': benign(r)})
            else:
                ops.append({'op': 'restart'})
            ops.append({'op': 'read', 'f': f, 'how': r.choice(['all', 'all', 'one', 'list', 'head']), 'x': frac(r),
                        'by': r.choice(['refresh', 'refresh', 'new']), 'faults': benign(r, 0.2)})
        return {'knobs': gen_platform(r, gen_knobs(r)), 'ops': ops}

    def look(self, f, by):
        """An instance that knows what the file holds now."""
        k = 'u%d' % f
        if k not in self.s.inst or by == 'new':
            o = self.s.open(k, FILES[f])
        else:
            o = self.s.get(k, 'refresh')
        if not o.ok():
            self.bad('open', 'opening or refreshing the file raises %s' % o.exc)
        return k

    def execute(self, scn, st, run):
        self.st = st
        s = self.s = run.sim()
        m = {0: None, 1: None}
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                s.restart()
                continue
            f = op['f']
            name = FILES[f]
            if op['op'] == 'foreign':
                es = [Theirs(x) for x in op['sets']]
                for x in op['sets']:
                    self.count(x['spec'])
                    for k, v in x['style'].items():
                        st.probes['style %s %s' % (k, '' if k == 'mix' else repr(v))] += 1
                for e in es[:-1]:
                    if not e.raw.endswith(b'\n'):
                        e.raw += b'\n'
                raw = b''.join(e.raw for e in es)
                if op['how'] == 'create' or m[f] is None:
                    old, m[f] = b'', []
                else:
                    old, raw = self.append(name, raw)
                if 'cut' in op and old:
                    self.halfway(n, op, f, old, raw, m[f], es)
                s.w.put(name, old + raw)
                m[f] = m[f] + es
            elif op['op'] == 'add':
                es = [Ours(x) for x in op['sets']]
                k = self.look(f, 'refresh')
                ds = []
                for x in op['sets']:
                    o = s.call(lambda: s.materialize(x), label='prepare')
                    if not o.ok():
                        raise Abandon('prepare raises %s' % o.exc)
                    ds.append(o.value[0])
                o = s.write(k, ds, 'add', force_double(op['sets']), op['faults'])
                if not o.ok():
                    self.bad('add', 'op %d: adding sets to the file raises %s' % (n, o.exc))
                m[f] = (m[f] or []) + es
                st.probes['sets added behind sets of another program'] += 1
            elif m[f]:
                self.read(n, op, f, m[f])

    def listing(self, n, k, want):
        o = self.s.get(k, 'types')
        if not o.ok():
            self.bad('types', 'op %d: get_set_types raises %s' % (n, o.exc))
        if o.value != [e.type for e in want]:
            self.bad('types', 'op %d: the types of the sets are %s instead of %s' % (n, o.value, [e.type for e in want]))
        o = self.s.get(k, 'formats')
        if not o.ok() or o.value != [int(e.fmt) for e in want]:
            self.bad('formats', 'op %d: the formats are %s instead of %s' % (n, o.value if o.ok() else o.exc, [e.fmt for e in want]))

    def read(self, n, op, f, es):
        s = self.s
        k = self.look(f, op['by'])
        self.listing(n, k, es)
        j = int(op['x'] * len(es))
        how = op['how']
        sel = None if how == 'all' else list(range(j, len(es))) if how == 'list' else j
        want = es if sel is None else es[j:] if how == 'list' else [es[j]]
        o = s.read(k, sel, how == 'head', op['faults'])
        if not o.ok():
            for i, e in enumerate(want):
                p = s.read(k, es.index(e), how == 'head')
                if not p.ok() and e.may_raise:
                    self.st.probes['variants that are declined'] += 1
                elif not p.ok():
                    self.bad('raise', 'op %d: a set of type %d (%s) cannot be read: %s' % (n, e.type, type(e).__name__.lower(), p.exc))
                elif e.differs(p.value, how == 'head'):
                    self.bad('value', 'op %d: a set of type %d (%s): %s'
                             % (n, e.type, type(e).__name__.lower(), e.differs(p.value, how == 'head')))
            if any(e.may_raise for e in want):
                return
            self.bad('raise', 'op %d: read_sets(%s) raises %s' % (n, sel, o.exc))
        got = as_list(o.value)
        if len(got) != len(want):
            self.bad('count', 'op %d: %d sets instead of %d' % (n, len(got), len(want)))
        for g, e in zip(got, want):
            self.st.judged += 1
            d = e.differs(g, how == 'head')
            if d:
                self.bad('value', 'op %d: a set of type %d (%s): %s' % (n, e.type, type(e).__name__.lower(), d))

    def halfway(self, n, op, f, old, raw, before, es):
        """The other program is not finished; pyuff looks at the file."""
        s = self.s
        cut = 1 + int(op['cut'] * (len(raw) - 1))
        data = old + raw[:cut]
        ends = []
        at = len(old) + len(raw) - sum(len(e.raw) for e in es)
        for e in es:
            at += len(e.raw)
            ends.append(at)
        lo = sum(x <= len(data) for x in ends)
        hi = sum(x <= len(data) + 82 for x in ends)
        s.w.put(FILES[f], data)
        k = self.look(f, 'refresh')
        if lookalike_tail(data, ends) or any(b'-1' in e.raw[-90:].split(b'\n', 1)[-1].strip()[:-2] for e in es):
            return
        o = s.get(k, 'n')
        if not o.ok():
            self.bad('torn', 'op %d: get_n_sets raises %s while another program adds sets' % (n, o.exc))
        if not len(before) + lo <= o.value <= len(before) + hi:
            self.bad('torn', 'op %d: %d sets while another program adds to %d, %d complete' % (n, o.value, len(before), lo))
        self.st.probes['looks at a set half written'] += 1
        for i, e in list(enumerate(before + es[:lo]))[-3:]:
            o = s.read(k, i)
            if not o.ok() and e.may_raise:
                continue
            if not o.ok():
                self.bad('torn', 'op %d: set %d cannot be read while another program adds sets: %s' % (n, i, o.exc))
            self.st.judged += 1
            d = e.differs(o.value, False)
            if d:
                self.bad('torn', 'op %d: set %d while another program adds sets: %s' % (n, i, d))


class C21(Exchange):
    id = 'C21'
    quick, thorough = 32000, 1200000
    rule = 'Histories of add, overwrite and re-saving calls with sets of every type and variant, by several instances and ' \
           'restarted processes on a disk that transfers in pieces; after each call another program takes the whole file apart ' \
           'strictly by the columns of the published layouts and must find exactly the sets written, each with the values supplied.'

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            f = r.choice([0, 0, 1])
            k = r.random()
            if k < 0.7 or not ops:
                ops.append({'op': 'write', 'f': f, 'mode': r.choice(['add', 'add', 'overwrite']),
                            'sets': call_specs(r, r.choice([1, 1, 2, 3]), small=r.random() < 0.8), 'faults': benign(r)})
            elif k < 0.85:
                ops.append({'op': 'resave', 'f': f, 'mode': r.choice(['add', 'overwrite']), 'fd': int(r.random() < 0.8), 'faults': benign(r)})
            elif k < 0.93:
                ops.append({'op': 'foreign', 'f': f, 'set': {'spec': plain(r, small_only=True), 'style': F.gen_style(r)}})
                ops[-1]['set']['style'].pop('gap', None)
            else:
                ops.append({'op': 'restart'})
        for op in ops:
            if 'sets' in op:
                gen.like_tags(r, op['sets'])
        return {'knobs': gen_platform(r, gen_knobs(r)), 'ops': ops}

    def execute(self, scn, st, run):
        self.st = st
        s = self.s = run.sim()
        m = {0: [], 1: []}                  # (type, format, expected fields, from the other program)
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                s.restart()
                continue
            f = op['f']
            if op['op'] == 'foreign':
                e = Theirs(op['set'])
                old, raw = self.append(FILES[f], e.raw)
                s.w.put(FILES[f], old + raw)
                m[f] = m[f] + [(e.type, e.fmt, e.expect, True)]
                self.judge(n, op, f, m[f])
                continue
            k = 'u%d' % f
            for i in (0, 1):
                if 'u%d' % i not in s.inst:
                    o = s.open('u%d' % i, FILES[i])
                else:
                    o = s.get('u%d' % i, 'refresh') if s.w.get(FILES[i]) is not None else o
                if not o.ok():
                    raise Abandon('cannot be opened')
            if op['op'] == 'write':
                ds, es = [], []
                for x in op['sets']:
                    self.count(x)
                    o = s.call(lambda: s.materialize(x), label='prepare')
                    if not o.ok():
                        raise Abandon('prepare raises %s' % o.exc)
                    ds.append(o.value[0])
                    es.append((int(x['t']), gen.is_binary(x), o.value[1].expect, False))
                fd = force_double(op['sets'])
            else:
                other = 1 - f
                if not m[other]:
                    continue
                o = s.read('u%d' % other)
                if not o.ok():
                    raise Abandon('cannot be read')
                ds, es = as_list(o.value), [(t, b, again(x, th), th) for t, b, x, th in m[other]]
                fd = bool(op['fd'])
                st.probes['sets saved again'] += len(ds)
            o = s.write(k, ds, op['mode'], fd, op['faults'])
            if not o.ok():
                raise Abandon('write_sets raises %s' % o.exc)
            m[f] = (m[f] if op['mode'] == 'add' else []) + es
            self.judge(n, op, f, m[f])

    def judge(self, n, op, f, want):
        try:
            got = F.parse(self.s.w.get(FILES[f]))
        except F.Broken as e:
            self.bad('layout', 'op %d (%s): the file does not follow the published layout: %s' % (n, op['op'], e))
        if [(x.type, x.binary) for x in got] != [(t, int(b)) for t, b, *_ in want]:
            self.bad('sets', 'op %d (%s): the file holds sets %s instead of %s'
                     % (n, op['op'], [(x.type, x.binary) for x in got], [x[:2] for x in want]))
        for i, (g, (t, b, e, _)) in enumerate(zip(got, want)):
            self.st.judged += 1
            d = C.fits(g.fields, e)
            if d:
                self.bad('value', 'op %d (%s): set %d (type %d) of the file: %s' % (n, op['op'], i, t, d))


def again(e, theirs):
    """What is left of the expectations when the set is saved again."""
    out = {}
    for k, (v, tol) in e.items():
        if k in ('ord_data_type', 'n_bytes', 'byte_ordering'):
            continue
        if theirs and k == 'x' and e.get('abscissa_spacing', (0,))[0] and 'abscissa_min' in e:
            x0, dx = e['abscissa_min'][0], e['abscissa_inc'][0]
            tol = ('abs', 1.001e-5 * (abs(x0) + abs(dx) * S.np.arange(len(v))) + 1e-300)
        elif theirs and tol == 'x':
            # its notation may have had more digits than pyuff writes
            tol = 5
        out[k] = (v, tol)
    return out


class C20(Exchange):
    id = 'C20'
    quick, thorough = 24000, 800000
    lists = ['sets', 'faults', 'rfaults', 'wfaults']
    rule = 'A mesh of another program (nodes, elements of several sets and types in any order and notation, elements with many ' \
           'nodes, other sets in between) is read by pyuff, converted, and the trace lines are written to the same or another ' \
           'file, with partial transfers and restarts; another program reads that file and must find, for each element set ' \
           'with quads, one trace-line set with the four edges of every quad and nothing else.'

    def gen(self, r, tier):
        sets = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 7])):
            if r.random() < 0.75:
                sets.append({'mesh': self.mesh(r), 'style': F.gen_style(r)})
            else:
                sets.append({'spec': plain(r, small_only=True), 'style': F.gen_style(r)})
        for x in sets:
            x['style'].pop('gap', None)
        return {'knobs': gen_platform(r, gen_knobs(r)), 'sets': sets, 'twice': int(r.random() < 0.3), 'same': int(r.random() < 0.4),
                'how': r.choice(['all', 'one']), 'restart': int(r.random() < 0.3), 'rfaults': benign(r), 'wfaults': benign(r)}

    def mesh(self, r):
        """[[descriptor, label, nodes]...]"""
        kinds = r.sample([44, 44, 44, 41, 94, 21, 115, 118, 116, 24], r.randint(1, 4))
        n = {44: 4, 41: 3, 94: 4, 21: 2, 115: 8, 118: 10, 116: 20, 24: 3}
        out = []
        nx = r.randint(2, 9)
        # elements may lie on one another, be twisted, or repeat a node
        pool = [gen.label(r) for _ in range(r.choice([3, 4, 5, 6]))] if r.random() < 0.3 else []
        for i in range(r.choice([1, 1, 2, 3, 5, 12, 40])):
            q = r.choice(kinds)
            if pool and r.random() < 0.6:
                nodes = r.sample(pool, n[q]) if n[q] <= len(pool) and r.random() < 0.7 else [r.choice(pool) for _ in range(n[q])]
                out.append([q, i + 1, nodes])
            elif r.random() < 0.6 and n[q] == 4:
                a = 1 + i % nx + (nx + 1) * (i // nx)
                out.append([q, i + 1, [a, a + 1, a + nx + 2, a + nx + 1]])
            else:
                out.append([q, gen.label(r), [gen.label(r) for _ in range(n[q])]])
        return out

    def text(self, x):
        if 'spec' in x:
            return Theirs(x).raw, None
        o = F.Out(x['style'])
        for q, lab, nodes in x['mesh']:
            o.rec(o.ints(10, lab, q, 1, 1, 7, len(nodes)))
            if q in F.BEAMS:
                o.rec(o.ints(10, 0, 1, 1))
            o.irows(10, nodes, 8)
        return o.done(2412) + o.close(), [n for q, _, n in x['mesh'] if q == 44]

    def execute(self, scn, st, run):
        self.st = st
        s = self.s = run.sim()
        raws, want = [], []
        for x in scn['sets']:
            raw, quads = self.text(x)
            raws.append(raw)
            if quads is None and x['spec']['t'] == '2412':
                quads = [e['nodes_nums'] for e in gen.build(x['spec']).expect.get(44, ([],))[0]]
            if quads:
                want.append(quads)
        a = FILES[0]
        b = a if scn['same'] else FILES[1]
        s.w.put(a, b''.join(raws))
        o = s.open('u', a)
        if not o.ok():
            raise Abandon('cannot be opened')
        if scn['how'] == 'all':
            o = s.read('u', faults=scn['rfaults'])
            sets = as_list(o.value)
        else:
            sets = []
            for i in range(len(raws)):
                o = s.read('u', i, faults=scn['rfaults'])
                sets.append(o.value)
        if not o.ok() or None in sets:
            raise Abandon('cannot be read')
        then = copy.deepcopy(sets)
        o = s.call(lambda: s.pyuff.tools.convert_dataset_2412_to_82(sets), label='convert')
        if not o.ok():
            self.bad('raise', 'converting %d sets, %d with quads, raises %s' % (len(sets), len(want), o.exc))
        if scn['twice']:
            o = s.call(lambda: s.pyuff.tools.convert_dataset_2412_to_82(sets), label='convert')
            if not o.ok():
                self.bad('raise', 'converting once more raises %s' % o.exc)
        for x, y in zip(sets, then):
            if not C.same(x, y):
                self.bad('changed', 'the conversion changed a set: %s' % C.where(x, y))
        new = o.value
        if len(new) != len(want):
            self.bad('count', '%d trace-line sets for %d element sets with quads' % (len(new), len(want)))
        if not new:
            return
        k = 'u'
        if scn['restart'] or b != a:
            if scn['restart']:
                s.restart()
            k = 'v'
            s.open('v', b)
        o = s.write(k, new, 'add', True, scn['wfaults'])
        if not o.ok():
            self.bad('write', 'writing the trace lines raises %s' % o.exc)
        try:
            got = F.parse(s.w.get(b))
        except F.Broken as e:
            self.bad('layout', 'the file does not follow the published layout: %s' % e)
        got = got[len(raws):] if b == a else got
        if [x.type for x in got] != [82] * len(want):
            self.bad('sets', 'the file has sets %s instead of %d trace-line sets' % ([x.type for x in got], len(want)))
        for i, (g, quads) in enumerate(zip(got, want)):
            st.judged += 1
            have = {x for x in edges(g.fields['nodes']) if len(x) == 2}     # (an edge from a node to itself is none)
            need = {frozenset(x) for q in quads for x in zip(q, q[1:] + q[:1]) if x[0] != x[1]}
            if have != need:
                self.bad('edges', 'trace lines %d of %d quads: missing %s, too many %s' % (
                    i, len(quads), sorted(map(sorted, need - have))[:5], sorted(map(sorted, have - need))[:5]))


def edges(nodes):
    """The lines a list of nodes draws; 0 lifts the pen."""
    out = set()
    for a, b in zip(nodes[:-1], nodes[1:]):
        if a and b:
            out.add(frozenset((int(a), int(b))))
    return out
