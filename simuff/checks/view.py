"""What an instance says about its file: C07 (current), C08 (read faults), C14 (ways of reading), C15, C16 (other and damaged sets)."""
import copy as cp

from ..base import *
import re

from .hist import Hist, any_fault, benign

ASSUME = ['the simulated file system keeps single system calls apart and ends with what was written to it',
          'the reference for a set is the set written alone, fault free, by the same code']
READF = ['EIO', 'EIO', 'mem', 'int', 'short', 'stall']


def raw_of(specs):
    es = [Entry(x) for x in specs]
    return b''.join(e.raw for e in es), es


def read_fault(r, lines=False):
    k = r.random()
    if k < 0.35:
        return {'sys': 'open', 'nth': r.choice([1, 1, 2, 3]), 'kind': r.choice(['EIO', 'EMFILE', 'EACCES', 'ENFILE', 'ENOENT', 'mem', 'int'])}
    if k < 0.8 or not lines and k < 0.93:
        return {'sys': 'read', 'nth': r.choice([1, 1, 1, 2, 2, 3, 4, 5, 8]), 'kind': r.choice(READF),
                'arg': r.choice([0.0, 0.1, 0.5, 0.9, 0.999])}
    if k < 0.88 or not lines:
        return {'sys': 'close', 'nth': r.choice([1, 1, 2, 3]), 'kind': r.choice(['EIO', 'int'])}
    return {'sys': 'line', 'nth': r.choice([r.randint(1, 30), r.randint(1, 120), r.randint(1, 500)]), 'kind': r.choice(['mem', 'mem', 'int']),
            'after': 'open'}


class View(Hist):
    assumptions = ASSUME

    def content(self, k, entries, n, msg=''):
        d = diff_content(self.s, k, entries, self.st)
        if d:
            self.bad(d[0], 'op %d%s: %s' % (n, msg, d[1]))


# lines in front of the first set that are no delimiters
PREFACE = [b'exported by another program\n', b'1.0    -1\n', b'    58\n', b'   -1\n', b'-1\n', b'\n', b'    -1x\n', b'  -1    -1    -1\n',
           b'x    -1' + b' ' * 74 + b'\n', b'     1    -1    58\n']


class C07(View):
    id = 'C07'
    quick, thorough = 16000, 600000
    lines = 1
    rule = 'Histories in which others delete, replace, shorten, extend, empty or swap (same size, same time stamp) the file ' \
           'between refreshes, and the instance writes, refreshes (with failing opens and reads) or is constructed; count, ' \
           'types, formats, status, existence and the sets themselves are compared with the file.'

    def gen(self, r, tier):
        ops = []
        if r.random() < 0.7:
            ops.append({'op': 'ext', 'how': 'set', 'sets': self.specs(r, r.choice([1, 2, 3]))})
        for _ in range(r.randint(3, 9)):
            k = r.random()
            i = r.randrange(2)
            if k < 0.35:
                how = r.choice(['set', 'set', 'set', 'delete', 'empty', 'cut', 'more', 'more', 'swap', 'swap', 'swap', 'nosets',
                                'torn', 'blank', 'retype'])
                ops.append({'op': 'ext', 'how': how, 'x': frac(r),
                            'sets': with_filler(r, [], 0.06 if how == 'set' else 0) + self.specs(r, r.choice([0, 1, 1, 2, 3, 5]) if how == 'set' else r.choice([1, 1, 2]))})
                if how == 'set' and r.random() < 0.15:
                    ops[-1]['pre'] = [r.randrange(len(PREFACE)) for _ in range(r.randint(1, 4))]
                if r.random() < 0.3:
                    ops[-1]['wait'] = r.choice([0.001, 1.0, 5000.0])
            elif k < 0.5:
                ops.append({'op': 'refresh', 'i': i, 'faults': []})
                if r.random() < 0.45:
                    ops[-1]['faults'] = [read_fault(r, True)]
            elif k < 0.65:
                ops.append({'op': 'new', 'i': i, 'faults': [read_fault(r)] if r.random() < 0.3 else []})
            elif k < 0.8:
                ops.append({'op': 'write', 'i': i, 'sets': call_specs(r, r.choice([1, 1, 2])),
                            'mode': r.choice(['add', 'add', 'overwrite']), 'faults': benign(r, 0.2)})
                if r.random() < 0.3:
                    x = any_fault(r) if r.random() < 0.6 else read_fault(r)
                    x['kind'] = {'crash': 'int', 'power': 'mem'}.get(x['kind'], x['kind'])
                    ops[-1].update(faults=[x], fails=1)
            else:
                ops.append({'op': 'look', 'i': i, 'how': r.choice(['n', 'types', 'formats', 'status', 'exists', 'read', 'one', 'all']),
                            'x': frac(r), 'faults': benign(r, 0.2)})
        ops.append({'op': 'refresh', 'i': 0, 'faults': []})
        return {'knobs': gen_knobs(r), 'ops': ops}

    def specs(self, r, n):
        out = [gen.gen_spec(r, small_only=True) for _ in range(n)]
        for i in range(n):
            if r.random() < 0.1:
                out[i] = {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)}
        return out

    def bad(self, cls, msg):
        raise Violation('C07:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        cur = None                  # entries in the file; None: no file
        pre = b''                   # what is in front of them
        self.was = {}               # what an instance has last described
        known = {}                  # instance -> True: knows the present content; False: does not
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'ext':
                if op.get('wait'):
                    s.w.advance(op['wait'])
                how = op['how']
                st.probes['external ' + how] += 1
                raw, es = raw_of(op['sets'])
                before, pre = pre, b''.join(PREFACE[i] for i in op.get('pre', ()))
                raw = pre + raw
                if how == 'delete':
                    s.w.drop(f)
                    cur = None
                elif how == 'empty':
                    s.w.put(f, b'')
                    cur = []
                elif how == 'nosets':
                    s.w.put(f, b'no data-sets here\n' * (1 + int(op['x'] * 20)))
                    cur = []
                elif how == 'blank':
                    s.w.put(f, b'\n \n\n')
                    cur = []
                elif how == 'torn':
                    t = raw[:len(raw) - 8]
                    from ..base import lookalike_tail
                    if lookalike_tail(t) or b'\n    -1\n' in t[8:] or gen.is_binary(es[-1].spec):
                        continue
                    s.w.put(f, t)
                    cur = []
                elif how in ('cut', 'swap', 'more', 'retype') and cur:
                    if how == 'cut':
                        cur = cur[:int(op['x'] * len(cur))]
                    elif how == 'swap':
                        cur = cur[::-1] if op['x'] < 0.7 else cur[1:] + cur[:1]
                    elif how == 'retype':
                        # another set of the same length: the last one becomes a set of a type pyuff does not support
                        e = cur[-1]
                        if e.fmt or e.raw[7:13] == b'  9999' or not e.raw.startswith(b'    -1\n'):
                            continue
                        x = Entry(e.spec)
                        x.raw = e.raw[:7] + b'  9999' + e.raw[13:]
                        x.type, x.fmt, x.canon = 9999, 0, {'type': 9999}
                        cur = cur[:-1] + [x]
                    else:
                        cur = cur + es
                    pre = before
                    s.w.put(f, pre + b''.join(e.raw for e in cur))
                else:
                    s.w.put(f, raw)
                    cur = es
                for k in known:
                    known[k] = False
                continue
            k = 'i%d' % op['i']
            if k not in s.inst or op['op'] == 'new':
                known.pop(k, None)
                o = s.open(k, f, op['faults'] if op['op'] == 'new' else ())
                if not o.ok():
                    if not o.fired:
                        self.bad('open', 'op %d: constructing an instance raises %s' % (n, o.exc))
                    continue
                known[k] = True
                self.describe(k, cur, n, 'after construction')
                if op['op'] == 'new':
                    continue
            if op['op'] == 'refresh':
                o = s.get(k, 'refresh', op['faults'])
                if o.ok() and (o.value or cur is None):
                    if bool(o.value) != (cur is not None):
                        self.bad('refresh', 'op %d: refresh returns %r, file %s' % (n, o.value, 'exists' if cur is not None else 'is missing'))
                    known[k] = True
                    self.describe(k, cur, n, 'after refresh')
                else:
                    if not op['faults']:
                        self.bad('refresh', 'op %d: refresh: %s' % (n, o))
                    st.probes['failed refresh'] += 1
                    st.judged += 1
                    g = s.get(k, 'status')
                    # (a file that was read and then not closed properly has been read)
                    # (nor does memory that runs out after everything is known change that; what is known is looked at below)
                    if not g.ok() or g.value and not any(x.startswith(('close', 'line')) for x in o.fired):
                        self.bad('status', 'op %d: status is %s although the refresh failed (%s)' % (n, g, o))
                    if g.value and any(x.startswith('line') for x in o.fired):
                        # it failed before it began or after it was done
                        st.probes['failed refresh, still refreshed'] += 1
                        a = [s.get(k, x) for x in ('n', 'types', 'formats')]
                        a = [x.value for x in a if x.ok()]
                        if a not in [[len(e), [x.type for x in e], [x.fmt for x in e]] for e in (cur or [], self.was.get(k, []))]:
                            self.bad('status', 'op %d: the refresh failed (%s), but status is True and count, types and formats are %s'
                                     % (n, o, a))
                        known[k] = False
                        continue
                    # the fault is gone: the next request sees the file
                    known[k] = True
                    self.describe(k, cur, n, 'after a failed refresh', status=False)
            elif op['op'] == 'write':
                new = self.entries(op['sets'])
                ds = self.args_of(op)
                if op['mode'] == 'add' and cur is not None and s.w.get(f)[-1:] not in (b'\n', b'') and not cur:
                    # after an unfinished set
                    pass
                was = s.w.get(f)
                o = s.write(k, ds, op['mode'], force_double(op['sets']), op['faults'])
                if not o.ok() and op.get('fails') and o.fired:
                    if known[k] or s.w.get(f) != was:
                        self.failed(k, f, n, o)
                    if was is None:
                        s.w.drop(f)
                    else:
                        s.w.put(f, was)
                    for j in known:
                        known[j] = False
                    continue
                if not o.ok():
                    raise Abandon('a write raises %s' % o.exc)
                if op['mode'] == 'overwrite':
                    cur, pre = [], b''
                cur = (cur or []) + new
                for j in known:
                    known[j] = False
                known[k] = True
                self.describe(k, cur, n, 'after its own write')
            elif op['op'] == 'look':
                how = op['how']
                if how == 'exists':
                    o = s.get(k, 'exists', op['faults'])
                    st.judged += 1
                    if not o.ok() or bool(o.value) != (cur is not None):
                        self.bad('exists', 'op %d: file_exists: %s' % (n, o))
                    continue
                if not known[k]:
                    if cur is None and how in ('read', 'one'):
                        o = s.read(k, None if how == 'read' else 0)
                        st.judged += 1
                        if o.ok():
                            self.bad('read-missing', 'op %d: a file that does not exist is read: %s' % (n, o))
                    continue
                self.ask(k, cur, n, how, op)

    def failed(self, k, f, n, o):
        """After a write of its own that failed the instance describes the file as it is now, too."""
        s, st = self.s, self.st
        st.probes['failed write'] += 1
        if not s.open('probe', f).ok():
            raise Abandon('cannot be opened')
        for what in (('status', 'n', 'types', 'formats') if n % 2 else ('n', 'types', 'formats', 'status')):
            g, p = s.get(k, what), s.get('probe', what)
            st.judged += 1
            if what == 'status' and not g.value:
                # it has not looked yet, and does so when it is asked
                continue
            if not g.ok() or g.value != p.value:
                self.bad(what, 'op %d: after a failed write (%s) %s: %s instead of %s' % (n, o.exc, what, g, p))
        for i in range(s.get('probe', 'n').value):
            g, p = s.read(k, i), s.read('probe', i)
            st.judged += 1
            if g.kind != p.kind or g.ok() and not C.same(g.value, p.value):
                self.bad('read', 'op %d: after a failed write (%s) read_sets(%d): %s instead of %s' % (n, o.exc, i, g, p))

    def ask(self, k, cur, n, how, op, msg=''):
        s, st = self.s, self.st
        es = cur or []
        if how in ('n', 'types', 'formats', 'status'):
            o = s.get(k, how, op['faults'])
            want = {'n': len(es), 'types': [e.type for e in es], 'formats': [e.fmt for e in es], 'status': cur is not None}[how]
            st.judged += 1
            if not o.ok() or o.value != want:
                self.bad(how, 'op %d%s: %s: %s instead of %s' % (n, msg, how, o, want))
        elif how == 'one' and es:
            i = int(op['x'] * len(es))
            o = s.read(k, i, faults=op['faults'])
            st.judged += 1
            if not o.ok() or not C.same(o.value, es[i].canon):
                self.bad('read', 'op %d: read_sets(%d): %s' % (n, i, o))
        else:
            self.describe(k, cur, n, '')

    def describe(self, k, cur, n, msg, status=True):
        s, st = self.s, self.st
        st.judged += 1
        self.was[k] = cur or []
        if status:
            o = s.get(k, 'status')
            if not o.ok() or bool(o.value) != (cur is not None):
                self.bad('status', 'op %d, %s: status: %s, file %s' % (n, msg, o, 'exists' if cur is not None else 'is missing'))
        o = s.get(k, 'exists')
        if not o.ok() or bool(o.value) != (cur is not None):
            self.bad('exists', 'op %d, %s: file_exists: %s' % (n, msg, o))
        if n % 4 < 3:
            # whichever is asked for first
            self.ask(k, cur, n, ['n', 'types', 'formats'][n % 4], {'faults': []}, ', ' + msg)
        self.content(k, cur or [], n, ', ' + msg)
        o = s.get(k, 'status')
        if not o.ok() or bool(o.value) != (cur is not None):
            self.bad('status', 'op %d, %s: status: %s' % (n, msg, o))
        if cur is None:
            o = s.read(k)
            if o.ok():
                self.bad('read-missing', 'op %d, %s: a file that does not exist is read: %s' % (n, msg, o))
        elif not cur:
            o = s.read(k)
            if o.ok() and as_list(o.value) != []:
                self.bad('read-empty', 'op %d, %s: sets are read from a file without any: %s' % (n, msg, o))
            o = s.read(k, 0)
            if o.ok():
                self.bad('read-empty', 'op %d, %s: a set is read from a file without any: %s' % (n, msg, o))


# --------------------------------------------------------------------------------------------------------------
class C08(View):
    id = 'C08'
    quick, thorough = 16000, 600000
    lines = 1
    rule = 'Files with 1-4 random sets are opened, refreshed, asked and read while opens, reads and closes fail (I/O error, no ' \
           'file handles, access), deliver pieces, memory runs out or the user interrupts at a system call or at any line of ' \
           'pyuff; a result must be the right one, an error must be reported, and afterwards everything is right again.'

    def gen(self, r, tier):
        sets = [gen.gen_spec(r, small_only=r.random() < 0.85) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < 0.15:
            sets.insert(r.randint(0, len(sets)), {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)})
        sets = with_filler(r, gen.like_tags(r, sets), 0.04)
        ops = []
        for _ in range(r.randint(2, 6)):
            op = {'op': r.choice(['new', 'refresh', 'n', 'types', 'formats', 'all', 'all', 'one', 'one', 'list', 'header']),
                  'x': frac(r, 4), 'faults': [read_fault(r, True)]}
            if r.random() < 0.2:
                op['faults'].append(read_fault(r, False))
            if r.random() < 0.1:
                op['faults'][0]['sticky'] = 1
            if r.random() < 0.35:
                op['stale'] = 1         # the instance has to refresh within the operation
            if r.random() < 0.12:
                op.update(op='add', sets=call_specs(r, 1))
            ops.append(op)
        return {'knobs': gen_knobs(r), 'sets': sets, 'ops': ops}

    lists = ['ops', 'sets']

    def bad(self, cls, msg):
        raise Violation('C08:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        raw, es = raw_of(scn['sets'])
        s.w.put(f, raw)
        if not es:
            raise Abandon('no sets')
        s.open('u', f)
        self.content('u', es, -1)
        types, fmts = [e.type for e in es], [e.fmt for e in es]
        for n, op in enumerate(scn['ops']):
            how = op['op']
            if 'u' not in s.inst:
                s.open('u', f)
            if op.get('stale'):
                # somebody added nothing; the instance has been told by a refresh that failed
                s.get('u', 'refresh', [{'sys': 'open', 'nth': 1, 'kind': 'EIO'}])
            idx = int(op['x'] * len(es))
            if how == 'new':
                o = s.open('v', f, op['faults'])
                if o.ok():
                    s.inst['u'] = s.inst['v']
                want = None
            elif how == 'refresh':
                o = s.get('u', 'refresh', op['faults'])
                want = True
            elif how in ('n', 'types', 'formats'):
                o = s.get('u', how, op['faults'])
                want = {'n': len(es), 'types': types, 'formats': fmts}[how]
            elif how == 'add':
                # a write looks at the file before and after it
                new = self.entries(op['sets'])
                o = s.write('u', self.args_of(op), 'add', force_double(op['sets']), op['faults'])
                want = o.value
                now = s.w.get(f)
                if now == raw + b''.join(e.raw for e in new):
                    raw = now
                    es = es + new
                    types, fmts = [e.type for e in es], [e.fmt for e in es]
                    st.probes['sets added while reading fails'] += 1
                elif now != raw:
                    s.w.put(f, raw)
                    s.inst.pop('u')
            elif how == 'header':
                o = s.read('u', idx, True, op['faults'])
                want = dict(es[idx].canon)
                if es[idx].type == 58:
                    want['x'] = want['data'] = None
            else:
                sel = {'all': None, 'one': idx, 'list': [len(es) - 1 - j for j in range(idx + 1)]}[how]
                o = s.read('u', sel, faults=op['faults'])
                want = [e.canon for e in es] if sel is None else [es[sel].canon] if how == 'one' else [es[j].canon for j in sel]
                if len(want) == 1:
                    want = want[0]
            struck = bool(o.fired)
            st.judged += 1
            if o.ok():
                st.probes['right result in spite of a fault' if struck else 'no fault struck'] += 1
                if how == 'new':
                    v = s.inst['u']
                    if any(x.get('kind') not in ('stall', 'short') for x in op['faults']):
                        pass
                elif how == 'refresh':
                    if o.value not in (True, False) or (o.value is False and s.get('u', 'status').value):
                        self.bad('refresh', 'op %d: refresh returns %r' % (n, o.value))
                elif not C.same(o.value, want):
                    self.bad('wrong', 'op %d: %s under %s gives %s instead of %s' % (n, how, op['faults'], C.short(o.value), C.short(want)))
            elif not struck:
                self.bad('raise', 'op %d: %s raises without a fault: %s' % (n, how, o.exc))
            else:
                st.probes['reported'] += 1
            if 'u' in s.inst:
                self.content('u', es, n, ' (after %s under %s: %s)' % (how, op['faults'], C.short(o.exc or 'ok')))
            if s.w.get(f) != raw:
                self.bad('changed', 'op %d: the file was changed' % n)


# --------------------------------------------------------------------------------------------------------------
def scribble(v):
    """The caller changes what it was given."""
    if isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
        v['type'] = -7
        v['scribble'] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append(None)
    elif isinstance(v, S.np.ndarray) and v.dtype.kind in 'iufc' and v.flags.writeable:
        v[...] = 77


class C14(View):
    id = 'C14'
    quick, thorough = 16000, 600000
    rule = 'Files of 1-6 random sets are read by index (also numpy integers), lists of indices in any order and repeated, ' \
           'all at once, header only, through several instances, in random order with partial transfers, the caller changing ' \
           'what it got; each set must be the same every time, and requests outside the file must raise.'

    lists = ['ops', 'sets']

    def gen(self, r, tier):
        sets = [gen.gen_spec(r, small_only=r.random() < 0.85) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))]
        if r.random() < 0.15:
            sets.insert(r.randint(0, len(sets)), {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)})
        if r.random() < 0.25:
            sets = [gen.gen_spec(r, ['58', '58b']) for _ in sets]
        sets = with_filler(r, gen.like_tags(r, sets), 0.04)
        ops = []
        for _ in range(r.randint(3, 9)):
            k = r.choice(['one', 'one', 'np', 'list', 'list', 'all', 'head', 'head', 'headall', 'headlist', 'out', 'out', 'outlist', 'new',
                          'refresh', 'empty'])
            ops.append({'op': k, 'i': r.randrange(2), 'xs': [frac(r) for _ in range(r.choice([1, 2, 3, 5]))],
                        'scribble': int(r.random() < 0.4), 'faults': benign(r, 0.2)})
        return {'knobs': gen_knobs(r), 'sets': sets, 'ops': ops}

    def bad(self, cls, msg):
        raise Violation('C14:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        raw, es = raw_of(scn['sets'])
        if not es:
            raise Abandon('no sets')
        s.w.put(f, raw)
        canon = [cp.deepcopy(e.canon) for e in es]
        head = []
        for c in canon:
            h = dict(c)
            if h.get('type') == 58:
                h['x'] = h['data'] = None
            head.append(h)
        N = len(es)
        for n, op in enumerate(scn['ops']):
            k = 'i%d' % op['i']
            how = op['op']
            if k not in s.inst or how == 'new':
                o = s.open(k, f)
                if not o.ok():
                    raise Abandon('cannot be opened')
                o = s.get(k, 'n')
                if not o.ok() or o.value != N:
                    raise Abandon('sets are missing')
                if how == 'new':
                    continue
            ix = [int(x * N) for x in op['xs']]
            fa = op['faults']
            if how == 'refresh':
                s.get(k, 'refresh', fa)
                continue
            if how in ('out', 'outlist'):
                x = op['xs'][0]
                j = [N, N + 1, -1, -N, -N - 1, N + 1000, -1][int(x * 7)]
                o = s.read(k, [ix[0], j] if how == 'outlist' else j, faults=fa)
                st.judged += 1
                if o.ok():
                    self.bad('outside', 'op %d: read_sets(%d) of %d sets returns %s' % (n, j, N, o))
                continue
            if how == 'empty':
                o = s.read(k, [], faults=fa)
                st.judged += 1
                if o.ok() and as_list(o.value) != []:
                    self.bad('empty', 'op %d: read_sets([]) returns %s' % (n, o))
                continue
            h = how.startswith('head')
            sel = {'one': ix[0], 'head': ix[0], 'np': S.np.int64(ix[0]), 'list': ix, 'headlist': ix}.get(how)
            src = head if h else canon
            want = [src[ix[0]]] if how in ('one', 'head', 'np') else src if sel is None else [src[j] for j in sel]
            if h and sel is None:
                u = s.inst[k]
                o = s.call(lambda: u.read_sets(header_only=True), fa, 'read header all')
            else:
                o = s.read(k, sel, h, fa)
            if not o.ok():
                self.bad('raise', 'op %d: %s of %d sets raises %s' % (n, how, N, o.exc))
            # one set comes as it is, more of them as a list
            if isinstance(o.value, list) != (len(want) != 1):
                self.bad('shape', 'op %d: %s of %d sets returns %s' % (n, how, len(want), C.short(o.value)))
            got = as_list(o.value)
            if len(got) != len(want):
                self.bad('count', 'op %d: %s returns %d sets instead of %d' % (n, how, len(got), len(want)))
            for g, w in zip(got, want):
                st.judged += 1
                if not C.same(g, w):
                    if h and w.get('type') == 58:
                        # the fields of the header, and nothing of the data
                        a = {x: g[x] for x in g if x not in ('x', 'data')}
                        b = {x: w[x] for x in w if x not in ('x', 'data')}
                        if C.same(a, b) and all(g.get(x) is None or not len(g[x]) for x in ('x', 'data')):
                            continue
                    self.bad('differ', 'op %d: %s: a set of type %s differs: %s' % (n, how, w.get('type'), C.where(g, w)))
            if op['scribble']:
                scribble(o.value)


# --------------------------------------------------------------------------------------------------------------
class C15(View):
    id = 'C15'
    quick, thorough = 12000, 400000
    rule = 'Files mixing sets of unsupported types (with arbitrary text, rows that look like delimiters, empty bodies) with ' \
           'supported sets; further supported and unsupported sets are written, by several instances and after restarts; ' \
           'count, types, order, the bytes of the unsupported sets and every supported set are compared with the model.'

    def gen(self, r, tier):
        init = []
        for _ in range(r.randint(1, 5)):
            init.append({'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(10 ** 6)} if r.random() < 0.55 else gen.gen_spec(r, small_only=True))
        init = with_filler(r, init, 0.04)
        ops = []
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < 0.1:
                ops.append({'op': 'restart'})
            elif k < 0.4:
                ops.append({'op': 'look', 'i': r.randrange(2), 'x': frac(r), 'faults': benign(r, 0.15)})
            else:
                sets = call_specs(r, r.choice([0, 1, 1, 2, 3]))
                for _ in range(r.choice([0, 1, 1, 2]) if sets else r.choice([1, 2])):
                    u = {'u': r.choice(gen.UNSUPPORTED), 's': 1}
                    if r.random() < 0.5:
                        u['like'] = gen.gen_spec(r, small_only=True)
                        u['like']['o'].pop('tag', None)
                    sets.insert(r.randint(0, len(sets)), u)
                mode = 'overwrite' if r.random() < 0.1 and any('t' in x for x in sets) else 'add'
                ops.append({'op': 'write', 'i': r.randrange(2), 'f': FILES[0], 'sets': sets, 'mode': mode,
                            'single': r.randint(0, 1), 'faults': benign(r, 0.2)})
        return {'knobs': gen_knobs(r), 'init': init, 'ops': ops}

    lists = ['ops', 'init']

    def bad(self, cls, msg):
        raise Violation('C15:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        raw, cur = raw_of(scn['init'])
        if scn['init']:
            s.w.put(f, raw)
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                self.restart()
                continue
            k = self.instance(dict(op, f=f))
            if k is None:
                self.bad('open', 'op %d: constructing an instance raises' % n)
            self.fresh(k, f)
            if op['op'] == 'look':
                if not cur:
                    continue
                i = int(op['x'] * len(cur))
                o = s.read(k, i, faults=op['faults'])
                st.judged += 1
                if not o.ok() or not C.same(o.value, cur[i].canon):
                    self.bad('read', 'op %d: set %d (%r) reads as %s' % (n, i, cur[i], o))
                self.content(k, cur, n)
                continue
            if not op['sets']:
                continue
            new = self.entries([x for x in op['sets'] if 't' in x])
            before = s.w.get(f)
            o = s.write(k, self.args_of(op), op['mode'], force_double(op['sets']), op['faults'])
            if not o.ok():
                self.bad('write', 'op %d: writing sets, some of an unsupported type, raises %s' % (n, o.exc))
            cur = ([] if op['mode'] == 'overwrite' else cur) + new
            self.bump(f, k)
            after = s.w.get(f)
            st.judged += 1
            if not new and (after or b'') != (before or b''):
                self.bad('written', 'op %d: writing a set of an unsupported type changed the file' % n)
            if before is not None and op['mode'] == 'add' and not after.startswith(before):
                self.bad('touched', 'op %d: the sets before were changed' % n)
            if after is None:
                continue
            self.content(k, cur, n)
        self.restart()
        if s.w.get(f) is not None:
            o = s.open('end', f)
            if not o.ok():
                self.bad('open', 'at the end: constructing an instance raises %s' % o.exc)
            self.content('end', cur, -1)


# --------------------------------------------------------------------------------------------------------------
ROT = ['bit', 'bit', 'byte', 'bytes', 'zeros', 'ff', 'digit', 'digits', 'stars', 'letters', 'swap', 'blank', 'newline', 'utf8',
       'field', 'field', 'field', 'remove', 'insert', 'dropline', 'dupline']
NUMBERS = [0, 0, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -12, -14, -16, -20, -24, -40, -100, 1, 2, 3, 7, 15, 10 ** 4, 10 ** 6, 99999999]


def rot(raw, lo, hi, how, x, y):
    """raw with damage between lo and hi."""
    b = bytearray(raw)
    n = hi - lo
    at = lo + int(x * n)
    ln = max(1, int(y * y * (hi - at)))
    import random as _r
    r = _r.Random('rot/%r/%r' % (x, y))
    if how == 'bit':
        b[at] ^= 1 << int(y * 8)
    elif how == 'byte':
        b[at] = r.randrange(256)
    elif how == 'bytes':
        for j in range(at, at + ln):
            b[j] = r.randrange(256)
    elif how in ('zeros', 'ff', 'stars', 'blank'):
        for j in range(at, at + ln):
            b[j] = {'zeros': 0, 'ff': 255, 'stars': 42, 'blank': 32}[how]
    elif how == 'newline':
        b[at] = r.choice([10, 13, 0x0c, 0x1c])
    elif how == 'utf8':
        b[at:at + 3] = b'\xe2\x80\xa8'[:min(3, hi - at)]
    elif how in ('digit', 'digits', 'letters'):
        d = [j for j in range(lo, hi) if 48 <= b[j] <= 57]
        if d:
            j0 = int(x * len(d))
            for j in d[j0:j0 + (1 if how == 'digit' else 1 + int(y * 40))]:
                b[j] = r.choice(b'0123456789') if how != 'letters' else r.choice(b'xEe-+. ')
    elif how == 'field':
        # one number of a column becomes another one, often a negative one
        d = [m for m in re.finditer(rb'(?<![^ \n])-?\d+(?=[ \r\n])', bytes(b[lo:hi]))]
        if d:
            m = d[int((x if y < 0.5 else x * x) * len(d))]
            v = b'%d' % r.choice(NUMBERS)
            e = lo + m.end()
            s = min(lo + m.start(), e - len(v))
            if s >= lo and not bytes(b[s:lo + m.start()]).strip(b' '):
                b[s:e] = v.rjust(e - s)
    elif how in ('remove', 'insert'):
        ln = min(ln, hi - at)
        b[at:at + (ln if how == 'remove' else 0)] = b'' if how == 'remove' else bytes(r.randrange(256) for _ in range(min(ln, 200)))
    elif how in ('dropline', 'dupline'):
        j = bytes(b).rfind(b'\n', lo, at) + 1 or lo
        k = bytes(b).find(b'\n', at, hi) + 1
        if k:
            b[j:k] = b'' if how == 'dropline' else b[j:k] * 2
    elif how == 'swap':
        for j in range(at, at + ln // 2):
            b[j], b[at + ln - 1 - (j - at)] = b[at + ln - 1 - (j - at)], b[j]
    return bytes(b)


class C16(View):
    id = 'C16'
    quick, thorough = 10000, 300000
    lines = 1
    lists = ['damage', 'trials', 'sets', 'ops']
    rule = 'Files of 2-5 random sets with 1-4 damages (flipped bits, random, zeroed or overwritten runs, changed digits and ' \
           'numbers, line ends, removed and inserted stretches and lines) inside the body of one set; the others are read alone, in lists and after further writes, after 4-12 more files with one damage each; ' \
           'reading the damaged set has a budget of steps (2 million lines of pyuff).'
    BUDGET = 2_000_000

    def gen(self, r, tier):
        sets = [gen.gen_spec(r, small_only=r.random() < 0.85) for _ in range(r.choice([2, 2, 3, 4, 5]))]
        if r.random() < 0.1:
            sets[r.randrange(len(sets))] = {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(1000)}
        sets = with_filler(r, sets, 0.03)
        return {'knobs': gen_knobs(r), 'sets': sets, 'k': frac(r),
                'damage': [[r.choice(ROT), frac(r, 4), frac(r, 4)] for _ in range(r.choice([1, 1, 1, 2, 4]))],
                'ops': [r.choice(['bad', 'bad', 'good', 'list', 'add', 'refresh', 'all', 'head', 'restart']) for _ in range(r.randint(2, 5))],
                'trials': [[r.choice(ROT + ['field'] * 30), frac(r, 4), frac(r, 4)] for _ in range(r.choice([4, 8, 12]))],
                'more': call_specs(r, 1),
                # instead of the body, the number of the set
                'head': r.choice(['    xx', '      ', '  12.5', '\0\0\0\0\0\0', ' -    ', '5 8   ', '    5\xff', '%6d' % r.randint(0, 99999), '     0',
                                  '    -2', '999999', '    +7', '0x0058', '  1_58', '    nn']) if r.random() < 0.12 else None}

    def bad(self, cls, msg):
        raise Violation('C16:' + cls, msg)

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        f = FILES[0]
        raw, es = raw_of(scn['sets'])
        if len(es) < 1:
            raise Abandon('no sets')
        v = int(scn['k'] * len(es))
        start = sum(len(e.raw) for e in es[:v])
        e = es[v]
        nl = e.raw.find(b'\n', 7)
        end = e.raw.rstrip(b' \r\n')
        lo, hi = start + nl + 1, start + len(end) - 6
        if hi - lo < 1:
            raise Abandon('nothing to damage')
        def damaged(damages):
            b, top = raw, hi
            for how, x, y in damages:
                if top > lo:
                    b2 = rot(b, lo, top, how, x, y)
                    top += len(b2) - len(b)
                    b = b2
                    st.fired['damage:' + how] += 1
            if b == raw:
                return None, 'no damage'

            def tags(z):
                return [(m.start(), z[m.start() - 1:m.start()] in (b'', b'\n', b'\r')) for m in re.finditer(
                    rb'    -1(?=[\r\n\0]|\Z| {74})', z)]

            def rest(z, top):
                # (in the body too, unless it changed its length)
                return [(p - (top if p >= top else 0), q) for p, q in tags(z) if len(b) == len(raw) or not lo <= p < top]
            if rest(b, top) != rest(raw, hi) or len(tags(b)) != len(tags(raw)):
                # delimiters are not part of the body
                return None, 'a delimiter was made or destroyed'
            return b, ''
        st.types['damaged ' + ('u' if e.type not in gen_types() else str(e.type) + 'b' * e.fmt)] += 1
        for n, d in enumerate(scn['trials']):
            b, why = damaged([d])
            if not b:
                continue
            s.w.put(f, b)
            s.open('t', f)
            s.budget = self.BUDGET
            o = s.read('t', v)
            s.budget = 0
            st.judged += 1
            st.probes['damaged set: ' + ('error' if not o.ok() else 'read')] += 1
            if o.kind == 'hang':
                self.bad('endless', 'trial %d: reading the damaged set takes more than %d steps' % (n, self.BUDGET))
            i = (v + 1) % len(es)
            if i != v:
                o = s.read('t', i)
                st.judged += 1
                if not o.ok() or not C.same(o.value, es[i].canon):
                    self.bad('differ', 'trial %d: undamaged set %d reads as %s' % (n, i, o))
        self.head = None
        if scn.get('head'):
            at = start + e.raw.find(b'\n') + 1
            b = raw[:at] + scn['head'].encode('latin-1') + raw[at + 6:]
            self.head = v
            st.fired['damage:number'] += 1
        else:
            b, why = damaged(scn['damage'])
            if not b:
                raise Abandon(why)
        s.w.put(f, b)
        s.open('u', f)
        good = [i for i in range(len(es)) if i != v]
        self.others('u', es, v, 'at first')
        for n, op in enumerate(scn['ops']):
            if op == 'restart':
                self.restart()
                s.open('u', f)
                op = 'refresh'
            if op in ('bad', 'all', 'head'):
                s.budget = self.BUDGET
                o = s.read('u', None if op == 'all' else v, op == 'head')
                s.budget = 0
                st.judged += 1
                st.probes['damaged set: ' + ('error' if not o.ok() else 'read')] += 1
                if o.kind == 'hang':
                    self.bad('endless', 'op %d: reading the damaged set takes more than %d steps' % (n, self.BUDGET))
                if op == 'all' and o.ok():
                    got = as_list(o.value)
                    if len(got) != len(es):
                        self.bad('count', 'op %d: %d sets read instead of %d' % (n, len(got), len(es)))
                    for i in range(len(es)):
                        if i != v and not C.same(got[i], es[i].canon):
                            self.bad('differ', 'op %d: set %d differs: %s' % (n, i, C.where(got[i], es[i].canon)))
            elif op == 'good' and good:
                i = good[n % len(good)]
                o = s.read('u', i)
                if not o.ok() or not C.same(o.value, es[i].canon):
                    self.bad('differ', 'op %d: undamaged set %d reads as %s' % (n, i, o))
            elif op == 'list' and good:
                o = s.read('u', good)
                st.judged += 1
                if not o.ok():
                    self.bad('raise', 'op %d: reading the undamaged sets raises %s' % (n, o.exc))
                for i, g in zip(good, as_list(o.value)):
                    if not C.same(g, es[i].canon):
                        self.bad('differ', 'op %d: undamaged set %d differs: %s' % (n, i, C.where(g, es[i].canon)))
            elif op == 'add':
                new = self.entries(scn['more'])
                o = s.write('u', self.args_of({'sets': scn['more']}), 'add', force_double(scn['more']))
                if not o.ok():
                    self.bad('add', 'op %d: adding raises %s' % (n, o.exc))
                es = es + new
                good = [i for i in range(len(es)) if i != v]
            elif op == 'refresh':
                o = s.get('u', 'refresh')
                if not o.ok() or not o.value:
                    self.bad('refresh', 'op %d: refresh: %s' % (n, o))
            self.others('u', es, v, 'op %d (%s)' % (n, op))

    def others(self, k, es, v, msg):
        s, st = self.s, self.st
        for what, want in (('n', len(es)), ('types', [e.type for e in es]), ('formats', [e.fmt for e in es])):
            o = s.get(k, what)
            st.judged += 1
            if o.ok() and self.head is not None and what != 'n' and len(o.value) > self.head:
                want[self.head] = o.value[self.head]          # the number itself is damaged
            if not o.ok() or o.value != want:
                self.bad(what, '%s: %s: %s instead of %s' % (msg, what, o, want))
        for i, e in enumerate(es):
            if i != v:
                o = s.read(k, i)
                st.judged += 1
                if not o.ok() or not C.same(o.value, e.canon):
                    self.bad('differ', '%s: undamaged set %d (type %s): %s' % (msg, i, e.type,
                             C.where(o.value, e.canon) if o.ok() else 'raises ' + o.exc))


def gen_types():
    return {int(t.rstrip('b')) for t in gen.TYPES}
