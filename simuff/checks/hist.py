"""Histories of calls: C01 (contents), C03 (adding never changes), C04 (failed writes), C05 (crashes), C15 (unsupported)."""
import re

from ..base import *


def benign(r, p=0.3):
    """Faults a correct program does not notice: partial transfers and delays."""
    out = []
    while r.random() < p:
        out.append(r.choice([{'sys': 'write', 'nth': r.randint(1, 3), 'kind': 'short', 'arg': round(r.random(), 2)},
                             {'sys': 'read', 'nth': r.randint(1, 4), 'kind': 'short', 'arg': round(r.random(), 2)},
                             {'sys': '*', 'nth': r.randint(1, 8), 'kind': 'stall', 'arg': r.choice([0.5, 60.0, 90000.0])}]))
    return out


class Hist(Check):
    """Executes operations on files and instances next to a model of what the files hold."""
    lists = ['ops']
    level = 'exploration'
    assumptions = ['the file system keeps single system calls apart and ends with what was written to it',
                   'the reference for a set is the set written alone, fault free, by the same code']

    # -- execution --
    def start(self, scn, st, run):
        self.scn, self.st, self.runner = scn, st, run
        self.s = run.sim()
        self.m = {}             # file -> list of entries (None: content unknown)
        self.ver = {}           # file -> number of changes
        self.seen = {}          # instance -> version it has seen
        self.dicts = {}         # id -> dictionary of the caller
        self.ends = {}
        self.torn = {}          # file -> lengths at which it ended in an unfinished set

    def initial(self, scn, f=FILES[0]):
        """The file as it is before the first operation."""
        if scn.get('init'):
            es = self.entries(scn['init'])
            self.s.w.put(f, b''.join(e.raw for e in es))
            self.m[f], self.ver[f] = es, 1
            self.set_ends(f, b'', [e.raw for e in es])
            if any('pad' in x for x in scn['init']):
                self.st.probes['long files'] += 1

    def key(self, op):
        return '%s:%s' % (op.get('i', 0), op['f'])

    def instance(self, op, faults=()):
        """Name of the instance the operation uses; constructed when needed."""
        k = self.key(op)
        if k not in self.s.inst:
            o = self.s.open(k, op['f'], faults)
            if not o.ok():
                return None
            self.seen[k] = self.ver.get(op['f'], 0)
        return k

    def fresh(self, k, f):
        """Users refresh after somebody else has changed the file."""
        if self.seen.get(k) != self.ver.get(f, 0):
            o = self.s.get(k, 'refresh')
            if o.ok():
                self.seen[k] = self.ver.get(f, 0)
            return o.ok()
        return True

    def restart(self):
        self.s.restart()
        self.seen.clear()
        self.dicts.clear()

    def dict_of(self, spec):
        i = spec.get('id')
        if i is not None and i in self.dicts:
            return self.dicts[i]
        o = self.s.call(lambda: self.s.materialize({k: v for k, v in spec.items() if k != 'id'}), label='prepare')
        if not o.ok():
            raise Abandon('prepare raises %s' % o.exc)
        d = o.value[0]
        if i is not None:
            self.dicts[i] = d
        return d

    def args_of(self, op):
        ds = [self.dict_of(x) for x in op['sets']]
        for x in op['sets']:
            self.st.types['u' if 'u' in x else ('58b' if gen.is_binary(x) else x['t'])] += 1
        return ds[0] if op.get('single') and len(ds) == 1 else ds

    def entries(self, specs):
        return [Entry({k: v for k, v in x.items() if k != 'id'}) for x in specs]

    # -- tears that cannot be told from a closing tag (known findings) --
    def tear(self, f, before, after, new, over):
        """After a write that did not finish: the known finding this content falls under, or None.

        Keeps track of whether the file now ends in an unfinished set."""
        before, after = before or b'', after or b''
        if after == before and not over:
            return None
        if over and not after.startswith(before):
            self.torn[f] = []
        raws = [e.raw for e in new]
        whole = {b''.join(raws[:j]) for j in range(len(raws) + 1)}
        base = before if after.startswith(before) else b''
        added = after[len(base):]
        if after.startswith(before) and (added in whole or added[:1] == b'\n' and added[1:] in whole):
            return None
        at = self.torn.setdefault(f, [])
        known = None
        if lookalike_tail(after, self.set_ends(f, b'' if over else before, raws)):
            known = 'torn-after-lookalike'
        m = re.search(rb'(?:^|[\r\n])    -1(?: *[\r\n]+)?(?:[ 0-9]{0,5}|[ 0-9]{0,6}[bB 0-9]*\0+)\Z', after)
        if m and (m.start() in at or m.start() + 1 in at):
            known = 'torn-opening'
        at.append(len(after))
        return known if known in self.listed else None

    def set_ends(self, f, base, raws):
        """Offsets at which sets end in the file (base: content before; raws: sets added to it)."""
        if not base:
            self.ends[f] = set()
        ends = self.ends.setdefault(f, set())
        for nl in (0, 1):
            at = len(base) + nl
            for b in raws:
                ends.add(at + len(b.rstrip(b' \r\n')))
                at += len(b)
        return ends

    def bump(self, f, k=None):
        self.ver[f] = self.ver.get(f, 0) + 1
        if k is not None:
            self.seen[k] = self.ver[f]


def gen_writes(r, tier, n, files=1, types=None, overwrite=0.12, benign_p=0.3, restart=0.1, small=True):
    """Operations for a history of successful calls."""
    ops, nid, old = [], 0, []
    for _ in range(n):
        f = FILES[r.randrange(files)]
        k = r.random()
        if k < restart:
            ops.append({'op': 'restart'})
        elif k < restart + 0.08:
            ops.append({'op': 'open', 'i': r.randrange(3), 'f': f, 'faults': benign(r, benign_p / 2)})
        elif k < restart + 0.3:
            op = {'op': 'check', 'i': r.choice([0, 0, 1, 2]), 'f': f, 'how': r.choice(['all', 'one', 'list', 'get', 'full']),
                  'x': r.random()}
            op['faults'] = benign(r, benign_p / 2)
            ops.append(op)
        else:
            m = r.choice([1, 1, 1, 2, 2, 3, 5]) if r.random() < 0.99 else r.randint(10, 60)
            sets = gen.like_tags(r, call_specs(r, m, types, small=small))
            for x in sets:
                if r.random() < 0.15:
                    x['id'] = nid
                    old.append(x)
                    nid += 1
            if old and r.random() < 0.15:
                sets = [dict(r.choice(old))]
            op = {'op': 'write', 'i': r.choice([0, 0, 0, 1, 2]), 'f': f, 'sets': sets,
                  'mode': 'overwrite' if r.random() < overwrite else 'add'}
            if len(sets) == 1 and r.random() < 0.5:
                op['single'] = 1
            op['faults'] = benign(r, benign_p)
            ops.append(op)
    return ops


class C01(Hist):
    id = 'C01'
    quick, thorough = 12000, 120000
    rule = 'Random histories (3-9 operations) of add/overwrite calls of 1-5 sets of random types and content through up to ' \
           '3 instances on up to 3 files, with restarts, partial reads and writes, delays, small buffers; every read is ' \
           'compared with the model (sets written since the last overwrite).'

    def gen(self, r, tier):
        files = r.choice([1, 1, 2, 3])
        n = r.randint(3, 9)
        types = None if r.random() < 0.6 else r.sample(gen.TYPES, r.randint(1, 4))
        return {'knobs': gen_platform(r, gen_knobs(r)), 'init': with_filler(r, []), 'ops': gen_writes(r, tier, n, files, types, small=r.random() < 0.8)}

    lists = ['ops', 'init']

    def bad(self, cls, msg):
        raise Violation('C01:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        self.initial(scn)
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                self.restart()
                continue
            f = op['f']
            if op['op'] == 'open':
                s.inst.pop(self.key(op), None)
                if self.instance(op, op.get('faults', ())) is None:
                    self.bad('open', 'op %d: constructing an instance raises' % n)
                continue
            k = self.instance(op)
            if k is None:
                self.bad('open', 'op %d: constructing an instance raises' % n)
            if op['op'] == 'write':
                new = self.entries(op['sets'])
                o = s.write(k, self.args_of(op), op['mode'], force_double(op['sets']), op.get('faults', ()))
                if not o.ok():
                    self.bad('write-raise', 'op %d: writing %s raises %s' % (n, new, o.exc))
                self.m[f] = (self.m.get(f, []) if op['mode'] == 'add' else []) + new
                self.bump(f, k)
                if len(self.m[f]) > 8:
                    st.probes['more than 8 sets in the file'] += 1
                if op['mode'] == 'overwrite':
                    st.probes['overwrite'] += 1
            else:
                if f not in self.m:
                    continue
                if not self.fresh(k, f):
                    self.bad('refresh', 'op %d: refresh raises' % n)
                self.look(k, self.m[f], op, n)
        self.restart()
        for f in sorted(self.m):
            o = s.open('end', f)
            if not o.ok():
                self.bad('open', 'at the end: constructing an instance raises %s' % o.exc)
            d = diff_content(s, 'end', self.m[f], st)
            if d:
                self.bad(d[0], 'at the end, %s: %s' % (f, d[1]))

    def look(self, k, entries, op, n):
        s, st = self.s, self.st
        how, x = op['how'], op['x']
        if how == 'full' or not entries:
            d = diff_content(s, k, entries, st)
            if d:
                self.bad(d[0], 'op %d: %s' % (n, d[1]))
            return
        if how == 'get':
            for what, want in (('n', len(entries)), ('types', [e.type for e in entries]), ('formats', [e.fmt for e in entries])):
                o = s.get(k, what, op.get('faults', ()))
                st.judged += 1
                if not o.ok() or o.value != want:
                    self.bad(what, 'op %d: %s is %s instead of %s' % (n, what, o, want))
            return
        if how == 'one':
            idx = int(x * len(entries))
            want = [entries[idx]]
        elif how == 'list':
            idx = sorted(range(len(entries)), key=lambda j: (x * 7919 * (j + 1)) % 1)[:1 + int(x * 31) % len(entries)]
            want = [entries[j] for j in idx]
        else:
            idx, want = None, entries
        o = s.read(k, idx, faults=op.get('faults', ()))
        if not o.ok():
            self.bad('read-raise', 'op %d: read_sets(%s) of %d raises %s' % (n, idx, len(entries), o.exc))
        got = as_list(o.value)
        if len(got) != len(want):
            self.bad('count', 'op %d: read_sets(%s) returns %d sets' % (n, idx, len(got)))
        for g, e in zip(got, want):
            st.judged += 1
            if not C.same(g, e.canon):
                self.bad('differ', 'op %d: read_sets(%s): a set of type %d differs: %s' % (n, idx, e.type, C.where(g, e.canon)))


# --------------------------------------------------------------------------------------------------------------
FOREIGN = ['none', 'empty', 'sets', 'sets', 'crlf', 'fixed', 'padded', 'comment', 'nonl', 'blank', 'torn', 'garbage', 'nul', 'rot']


def gen_foreign(r, kinds=FOREIGN):
    k = r.choice(kinds)
    return {'op': 'init', 'f': FILES[0], 'kind': k, 'sets': with_filler(r, call_specs(r, r.randint(0 if k != 'torn' else 1, 3)), 0.04),
            'x': round(r.random(), 3)}


def foreign_bytes(op):
    """(content, entries or None if the sets in it are not to be relied upon)."""
    es = [Entry(x) for x in op['sets']]
    raw = [e.raw for e in es]
    k, x = op['kind'], op['x']
    text = [not gen.is_binary(e.spec) for e in es]
    if k == 'none':
        return None, []
    if k == 'empty':
        return b'', []
    if k == 'crlf':
        if not all(text):
            return b''.join(raw), es
        return b''.join(b.replace(b'\n', b'\r\n') for b in raw), None
    if k == 'fixed':
        return b''.join(b[:-len(b'\n    -1\n')] + b'    -1\n' if b.endswith(b'\n    -1\n') else b for b in raw), None
    if k == 'padded':
        return b''.join(b.replace(b'    -1\n', b'    -1' + b' ' * 74 + b'\n', 1) for b in raw), None
    if k == 'comment':
        return b'UFF file of some software\n' + b''.join(raw), es
    if k == 'blank':
        return b'\n\n' + b'\n'.join(raw) + b'\n \n', es
    if k == 'nonl':
        return b''.join(raw).rstrip(b'\n'), es
    if k == 'torn':
        b = b''.join(raw)
        cut = 1 + int(x * (len(raw[-1]) - 1)) if raw else 0
        return b[:len(b) - cut], None
    if k == 'garbage':
        return b''.join(raw) + bytes((int(x * 1000) * (j + 7)) % 251 for j in range(int(x * 200))), None
    if k == 'rot':
        b = bytearray(b''.join(raw))
        for j in range(1 + int(x * 10)):
            if b:
                b[int(x * 7919 * (j + 1)) * 31 % len(b)] = 33 + int(x * 977 * (j + 3)) % 90
        return bytes(b), None
    if k == 'nul':
        return b''.join(raw) + b'\0' * int(x * 100), None
    return b''.join(raw), es


def any_fault(r, lines=True):
    """A fault that may make an operation fail."""
    k = r.random()
    if k < 0.2:
        return {'sys': 'open', 'nth': r.choice([1, 1, 1, 2, 3]), 'kind': r.choice(['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'mem', 'int', 'crash'])}
    if k < 0.55:
        return {'sys': 'write', 'nth': r.choice([1, 1, 1, 1, 2, 2, 3, 4, 6]),
                'kind': r.choice(['EIO', 'ENOSPC', 'ENOSPC', 'mem', 'int', 'crash', 'crash', 'power', 'short']),
                'arg': r.choice([0.0, 0.01, 0.3, 0.5, 0.9, 0.99, 1.0, round(r.random(), 3)])}
    if k < 0.68:
        return {'sys': 'read', 'nth': r.choice([1, 1, 1, 2, 2, 3, 4]), 'kind': r.choice(['EIO', 'mem', 'int', 'crash', 'short']), 'arg': 0.4}
    if k < 0.78:
        return {'sys': 'close', 'nth': r.choice([1, 1, 2, 3]), 'kind': r.choice(['EIO', 'ENOSPC', 'crash', 'power']), 'arg': round(r.random(), 3)}
    if k < 0.86 or not lines:
        return {'sys': '*', 'nth': r.randint(1, 12), 'kind': r.choice(['crash', 'power', 'stall']), 'arg': round(r.random(), 3)}
    return {'sys': 'line', 'nth': r.choice([r.randint(1, 40), r.randint(1, 150), r.randint(1, 600)]), 'kind': r.choice(['mem', 'int', 'crash'])}


class C03(Hist):
    id = 'C03'
    quick, thorough = 12000, 120000
    lines = 1
    rule = 'Random histories of successful, rejected, failing, interrupted and crashing write_sets calls and reads on files ' \
           'with own, foreign, torn and arbitrary initial content; after each system call of an add the bytes present ' \
           'before must still be there, unchanged and first.'

    def gen(self, r, tier):
        ops = [gen_foreign(r)]
        for _ in range(r.randint(2, 7)):
            k = r.random()
            if k < 0.08:
                ops.append({'op': 'restart'})
                continue
            if k < 0.2:
                ops.append({'op': 'read', 'i': r.randrange(2), 'f': FILES[0], 'n': r.choice([None, 0, [0, 1], 99]),
                            'faults': [any_fault(r)] if r.random() < 0.5 else []})
                continue
            if k < 0.27:
                ops.append({'op': 'refresh', 'i': r.randrange(2), 'f': FILES[0],
                            'faults': [any_fault(r)] if r.random() < 0.5 else []})
                continue
            sets = call_specs(r, r.choice([1, 1, 2, 3]))
            if r.random() < 0.25:
                sets.insert(r.randint(0, len(sets)), gen.gen_bad(r))
            if r.random() < 0.08:
                sets.insert(r.randint(0, len(sets)), {'u': r.choice(gen.UNSUPPORTED), 's': 1})
            mode = 'add' if r.random() < 0.85 else r.choice(['overwrite', 'ADD', 'append', 'Overwrite', ''])
            op = {'op': 'write', 'i': r.randrange(2), 'f': FILES[0], 'sets': sets, 'mode': mode, 'faults': []}
            if r.random() < 0.1:
                op['default'] = 1
            if r.random() < 0.5:
                op['faults'] = [any_fault(r) for _ in range(r.choice([1, 1, 2]))]
            ops.append(op)
        return {'knobs': gen_knobs(r), 'ops': ops}

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        state = {'old': None, 'path': None, 'bad': None}

        def watch(what, path, ino):
            if state['old'] is None or path != state['path'] or state['bad']:
                return
            st.judged += 1
            if what in ('delete',) or not bytes(ino.data[:len(state['old'])]) == state['old']:
                state['bad'] = '%s: %d bytes were there, now %d' % (what, len(state['old']), len(ino.data))
        s.w.observers.append(watch)
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                self.restart()
                continue
            f = op['f']
            if op['op'] == 'init':
                b, _ = foreign_bytes(op)
                if b is not None:
                    s.w.put(f, b)
                continue
            # opening an instance does not change anything either
            s.w.sync()
            before = s.w.get(f)
            state.update(old=before, path=s.w.norm(f), bad=None)
            k = self.instance(op)
            if k is not None:
                if op['op'] == 'write':
                    try:
                        ds = self.args_of(op)
                    except Abandon:
                        continue
                    u = s.inst[k]
                    mode = op['mode']
                    state.update(old=None if mode.lower() == 'overwrite' and not op.get('default') else before)
                    if op.get('default'):
                        o = s.call(lambda: u.write_sets(ds), op['faults'], 'write default mode')
                    else:
                        o = s.write(k, ds, mode, force_double(op['sets']), op['faults'])
                    if not o.ok():
                        st.probes['failed or crashed calls'] += 1
                elif op['op'] == 'read':
                    o = s.read(k, op['n'], faults=op['faults'])
                else:
                    o = s.get(k, 'refresh', op['faults'])
            if state['old'] is not None:
                after = s.w.get(f)
                st.judged += 1
                if state['bad']:
                    raise Violation('C03:' + op['op'], 'op %d: during %s(%s): %s' % (n, op['op'], op.get('mode'), state['bad']))
                if after is None or not after.startswith(before):
                    raise Violation('C03:' + op['op'], 'op %d: after %s(%s) the %d bytes that were in the file are not there any more'
                                    % (n, op['op'], op.get('mode'), len(before)))
                if op['op'] != 'write' and after != before:
                    raise Violation('C03:' + op['op'], 'op %d: %s changed the file' % (n, op['op']))
            state.update(old=None)
            if s.proc.dead:
                self.restart()


# --------------------------------------------------------------------------------------------------------------
class C04(Hist):
    id = 'C04'
    quick, thorough = 12000, 100000
    lines = 1
    rule = 'Random histories in which write_sets calls contain sets that cannot be written (each type, missing or unusable ' \
           'fields, no type, unknown mode) or meet a full disk, I/O errors, failing allocations or interrupts at a system ' \
           'call or at any line of pyuff; then contents, retry with the same dictionaries and later writes are compared ' \
           'with the model.'

    def gen(self, r, tier):
        ops = []
        if r.random() < 0.8:
            ops.append({'op': 'write', 'i': 0, 'f': FILES[0], 'sets': call_specs(r, r.choice([1, 2, 3])), 'mode': 'add', 'faults': []})
        for _ in range(r.randint(1, 4)):
            k = r.random()
            sets = call_specs(r, r.choice([1, 1, 2, 3]))
            op = {'op': 'write', 'i': r.choice([0, 0, 1]), 'f': FILES[0], 'sets': sets,
                  'mode': 'add' if r.random() < 0.75 else 'overwrite', 'faults': []}
            if k < 0.45:
                sets.insert(r.randint(0, len(sets)), gen.gen_bad(r))
                if r.random() < 0.2:
                    op['sets'] = [x for x in sets if 'bad' in x]
                    op['single'] = r.randint(0, 1)
            elif k < 0.5:
                op['mode'] = r.choice(['append', 'w', '', 'overwrite ', 'r'])
            elif k < 0.9:
                while True:
                    fa = any_fault(r)
                    if fa['kind'] not in ('crash', 'power', 'stall', 'short'):
                        break
                if r.random() < 0.15:
                    fa['sticky'] = 1
                op['faults'] = [fa]
                if r.random() < 0.15:
                    op['faults'].append({'sys': 'write', 'nth': r.randint(1, 3), 'kind': 'short', 'arg': 0.5})
            if r.random() < 0.3:
                op['look'] = 1
            ops.append(op)
        ops.append({'op': 'write', 'i': r.choice([0, 1]), 'f': FILES[0], 'sets': call_specs(r, 1), 'mode': 'add', 'faults': []})
        return {'knobs': gen_knobs(r, chunks=r.random() < 0.3), 'init': with_filler(r, [], 0.03), 'ops': ops}

    lists = ['ops', 'init']

    def bad(self, cls, msg):
        raise Violation('C04:' + cls, msg)

    def twin(self, before, f, sets, mode, fd):
        """The bytes the call would leave with only these sets."""
        t = self.runner.sim()
        try:
            if before is not None:
                t.w.put(f, before)
            if not sets:
                return before
            ds = []
            for x in sets:
                o = t.call(lambda: t.materialize(x))
                if not o.ok():
                    raise Abandon('prepare raises')
                ds.append(o.value[0])
            t.open('u', f)
            o = t.write('u', ds, mode, fd)
            if not o.ok():
                raise Abandon('the sets before the bad one cannot be written: %s' % o.exc)
            return t.w.get(f)
        finally:
            t.end()

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        self.initial(scn)
        for n, op in enumerate(scn['ops']):
            f = op['f']
            model = self.m.get(f, [])
            k = self.instance(op)
            if k is None:
                raise Abandon('constructing an instance raises')
            if op.get('look') and f in self.m and model:
                self.fresh(k, f)
                s.read(k)
            badpos = [i for i, x in enumerate(op['sets']) if 'bad' in x]
            good = op['sets'][:badpos[0]] if badpos else op['sets']
            new = self.entries(good)
            known_mode = op['mode'].lower() in ('add', 'overwrite')
            over = op['mode'].lower() == 'overwrite'
            if not known_mode:
                new = []
            ds = []
            for x in op['sets']:
                o = s.call(lambda: s.materialize(x), label='prepare')
                if not o.ok():
                    raise Abandon('prepare raises %s' % o.exc)
                ds.append(o.value[0])
            if op.get('single') and len(ds) == 1:
                ds = ds[0]
            before = s.w.get(f)
            fd = force_double(op['sets'])
            u = s.inst[k]
            o = s.write(k, ds, op['mode'], fd, op['faults'])
            current = self.seen.get(k) == self.ver.get(f, 0)
            self.bump(f)
            if o.ok() or current:
                self.seen[k] = self.ver[f]
            rejected = bool(badpos) or not known_mode
            struck = bool(o.kind == 'raise' and op['faults'])
            if o.ok() and rejected:
                raise Abandon('a set meant to be unwritable was written: %s' % op['sets'][badpos[0]]['t'] if badpos else 'mode accepted')
            if o.ok():
                self.m[f] = ([] if over else model) + new
                self.set_ends(f, b'' if over else before or b'', [e.raw for e in new])
            elif rejected and not struck:
                # a rejected call: byte for byte
                st.probes['rejected calls'] += 1
                st.types['rejected ' + (op['sets'][badpos[0]]['t'] if badpos else 'mode')] += 1
                want = before if not known_mode else self.twin(before, f, good, op['mode'], fd)
                after = s.w.get(f)
                st.judged += 1
                if after != want:
                    self.bad('reject', 'op %d: a rejected call (%s) left %s bytes instead of %s'
                             % (n, o.exc, None if after is None else len(after), None if want is None else len(want)))
                if new:
                    self.m[f] = ([] if over else model) + new
            elif not struck:
                self.bad('raise', 'op %d: a valid call raises %s' % (n, o.exc))
            else:
                # an I/O error: old content, then a whole prefix of the new sets
                st.probes['failed calls'] += 1
                t = self.tear(f, before, s.w.get(f), new, over)
                if t:
                    st.known[t] += 1
                    raise Abandon('known finding')
                fate = self.fate(s, f, model, new, over, before)
                if isinstance(fate, str):
                    self.bad('failed', 'op %d: after a failed call (%s): %s' % (n, o.exc, fate))
                self.m[f] = fate
                if not rejected:
                    # the same call with the same dictionaries
                    self.set_ends(f, b'' if over else s.w.get(f) or b'', [e.raw for e in new])
                    o = s.write(k, ds, op['mode'], fd)
                    self.bump(f, k)
                    if not o.ok():
                        self.bad('retry', 'op %d: the call raises when repeated after a failure: %s' % (n, o.exc))
                    st.probes['repeated calls'] += 1
                    self.m[f] = ([] if over else self.m[f]) + new
            if f in self.m:
                if not self.fresh(k, f):
                    self.bad('refresh', 'op %d: refresh raises' % n)
                d = diff_content(s, k, self.m[f], st)
                if d:
                    self.bad('after-' + d[0], 'op %d, same instance: %s' % (n, d[1]))
        s.restart()
        for f in sorted(self.m):
            if s.w.get(f) is None and not self.m[f]:
                continue
            o = s.open('end', f)
            if not o.ok():
                self.bad('open', 'constructing an instance raises %s' % o.exc)
            d = diff_content(s, 'end', self.m[f], st)
            if d:
                self.bad('end-' + d[0], 'at the end: %s' % d[1])

    def probes(self, listed):
        return tear_probes(self)

    def fate(self, s, f, model, new, over, before):
        if s.w.get(f) is None:
            return 'the file is gone' if before is not None else []
        if over:
            if s.w.get(f) == before:
                return model
            k, m = prefix_matches(s, 'fate', f, [], new, self.st)
            return m if k is None else new[:k]
        k, m = prefix_matches(s, 'fate', f, model, new, self.st)
        return m if k is None else model + new[:k]


# --------------------------------------------------------------------------------------------------------------
class C05(Hist):
    id = 'C05'
    quick, thorough = 12000, 120000
    lines = 1
    rule = 'Random histories in which the process is killed or power is lost at a random system call (or line) of a ' \
           'write_sets call, with torn writes and loss of what was not synced, up to three crashes per run; after each ' \
           'restart a fresh instance must see the durable sets and a whole prefix of the interrupted call, and more sets ' \
           'are added and read.'

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ops.append({'op': 'write', 'i': 0, 'f': FILES[0], 'sets': call_specs(r, r.choice([1, 2, 3])), 'mode': 'add', 'faults': []})
        if r.random() < 0.8:
            ops.append({'op': 'sync'})
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.25:
                ops.append({'op': 'write', 'i': 0, 'f': FILES[0], 'sets': call_specs(r, 1), 'mode': 'add', 'faults': []})
                if r.random() < 0.5:
                    ops.append({'op': 'sync'})
            ops.append({'op': 'write', 'i': r.randrange(2), 'f': FILES[0], 'sets': call_specs(r, r.choice([1, 1, 2, 3, 4]), small=r.random() < 0.8),
                        'mode': 'overwrite' if r.random() < 0.15 else 'add', 'faults': [self.crash(r)]})
        ops.append({'op': 'write', 'i': 0, 'f': FILES[0], 'sets': call_specs(r, r.choice([1, 2])), 'mode': 'add', 'faults': []})
        return {'knobs': gen_knobs(r), 'init': with_filler(r, [], 0.03), 'ops': ops}

    lists = ['ops', 'init']

    def crash(self, r):
        frac = r.choice([0.0, 0.002, 0.01, 0.05, 0.3, 0.5, 0.9, 0.97, 0.99, 0.995, 0.999, 1.0, round(r.random(), 4), round(r.random(), 4)])
        k = r.random()
        kind = 'power' if r.random() < 0.4 else 'crash'
        f = {'kind': kind, 'arg': frac}
        if kind == 'power' and r.random() < 0.3:
            f['zeros'] = r.choice([1, 7, 512])
        if k < 0.6:
            f.update(sys='write', nth=r.choice([1, 1, 1, 2, 2, 3, 4, 7]))
        elif k < 0.85:
            f.update(sys='*', nth=r.randint(1, 30))
        elif k < 0.93:
            f.update(sys='close', nth=r.randint(1, 4))
        else:
            f = {'sys': 'line', 'nth': r.choice([r.randint(1, 60), r.randint(1, 900)]), 'kind': 'crash'}
        return f

    def bad(self, cls, msg):
        raise Violation('C05:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        self.initial(scn)
        s.w.sync()
        durable = len(self.m.get(f, []))             # how many entries are certainly durable (None: content of before an unsynced overwrite)
        hist = [[]]             # possible contents a power loss may return to (before an overwrite that was not synced)
        alts = []
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'sync':
                s.w.sync()
                durable, alts = len(self.m.get(f, [])), []
                continue
            model = self.m.get(f, [])
            k = self.instance(op)
            if k is None:
                raise Abandon('constructing an instance raises')
            new = self.entries(op['sets'])
            over = op['mode'] == 'overwrite'
            if over:
                alts = alts + [model[:j] for j in range(durable, len(model) + 1)]
            ds = self.args_of(op)
            before = s.w.get(f)
            o = s.write(k, ds, op['mode'], force_double(op['sets']), op['faults'])
            if o.kind == 'ok':
                self.m[f] = ([] if over else model) + new
                self.set_ends(f, b'' if over else before or b'', [e.raw for e in new])
                if over:
                    durable = 0
                self.bump(f, k)
                continue
            if o.kind != 'crash':
                raise Abandon('a fault-free write raises %s' % o.exc)
            power = any(x.startswith('power') for x in s.w.fired) and op['faults'][0]['kind'] == 'power'
            st.probes['power losses' if power else 'kills'] += 1
            self.restart()
            after = s.w.get(f)
            if after is not None and before is not None and after != before and not after.startswith(before):
                st.probes['content lost or replaced in the crash'] += 1
            if after is None:
                if (before is not None and not power) or durable:
                    self.bad('gone', 'op %d: the file is gone after the crash' % n)
                self.m[f], durable, alts = [], 0, []
                s.w.sync()
                continue
            t = self.tear(f, before, after, new, over)
            if t:
                st.known[t] += 1
                raise Abandon('known finding')
            # what may be there: candidates of old content, each followed by a prefix of the new sets
            cands = []
            if over:
                cands += [([], new)]
                if power:
                    cands += [(a, []) for a in alts]
                cands += [(model, [])]
            else:
                cands += [(model, new)]
                if power:
                    cands += [(model[:j], []) for j in range(len(model) - 1, durable - 1, -1)] + [(a, []) for a in alts]
            why = []
            for base, add in cands:
                j, m = prefix_matches(s, 'after', f, base, add, st)
                if j is not None:
                    self.m[f] = base + add[:j]
                    if 0 < j < len(add):
                        st.probes['part of the call survived'] += 1
                    if j == 0 and len(after) > len(before or b''):
                        st.probes['torn set skipped'] += 1
                    break
                why.append(m)
            else:
                self.bad('content', 'op %d: after a crash at %s: %s' % (n, op['faults'][0], why[0]))
            self.bump(f)
            s.w.sync()
            durable, alts = len(self.m[f]), []
        s.restart()
        if f in self.m and s.w.get(f) is not None:
            o = s.open('end', f)
            if not o.ok():
                self.bad('open', 'at the end: constructing an instance raises %s' % o.exc)
            d = diff_content(s, 'end', self.m[f], st)
            if d:
                self.bad('end-' + d[0], 'at the end: %s' % d[1])

    def probes(self, listed):
        return tear_probes(self)


def lookalike_spec():
    """A set with a row in its middle that ends in -1, and the number of bytes up to there."""
    for seed in range(1, 400):
        spec = {'t': '2467', 's': seed, 'n': 9, 'o': {}}
        e = Entry(spec)
        i = e.raw.find(b'    -1\n', 30)
        while 0 < i and e.raw[i - 1:i] in b'\r\n':
            i = e.raw.find(b'    -1\n', i + 1)
        if 0 < i < len(e.raw) - 40:
            return spec, (i + 7) / len(e.raw)
    for seed in range(1, 400):
        spec = {'t': '1858', 's': seed, 'n': 9, 'o': {}}
        e = Entry(spec)
        i = e.raw.find(b'    -1\n', 30)
        while 0 < i and e.raw[i - 1:i] in b'\r\n':
            i = e.raw.find(b'    -1\n', i + 1)
        if 0 < i < len(e.raw) - 40:
            return spec, (i + 7) / len(e.raw)
    return None, 0


def tear_probes(check):
    """The two known findings about torn sets, each on one fixed history."""
    kind = {'C05': 'crash', 'C04': 'ENOSPC'}[check.id]
    one = {'t': '164', 's': 1, 'n': 1, 'o': {}}

    def w(sets, **fault):
        return {'op': 'write', 'i': 0, 'f': FILES[0], 'sets': sets, 'mode': 'add',
                'faults': [dict(sys='write', nth=1, kind=kind, **fault)] if fault else []}
    out = []
    old, check.listed = check.listed, set()
    try:
        spec, frac = lookalike_spec()
        if spec:
            scn = {'knobs': {}, 'ops': [w([one]), w([spec], arg=frac)]}
            v, _ = check.run(scn)
            if v:
                out.append(('torn-after-lookalike', v.msg, scn))
        e = Entry(one)
        first = [one] if kind == 'crash' else [one, {'t': '15', 's': 1, 'n': 2, 'o': {}, 'bad': 'notype'}]
        scn = {'knobs': {}, 'ops': [w([one]), w(first, arg=0.5), w(first, arg=7.5 / len(e.raw))]}
        v, _ = check.run(scn)
        if v:
            out.append(('torn-opening', v.msg, scn))
    finally:
        check.listed = old
    return out
