"""fix_58b: C11."""
import os.path

from ..base import *
from .hist import any_fault, benign
from .view import ASSUME

NAMES = ['a.uff', 'a.uff', 'data/c.unv', 'many.dots.in.name.uff', 'noext', 'dir.d/noext', 'dir.d/x.UFF', 'with blank.uff', './b.uff',
         '/simdisk/abs.uff', 'a_fixed.uff', 'c.uff.uff']


class C11(Check):
    id = 'C11'
    quick, thorough = 24000, 1000000
    lines = 1
    lists = ['sets', 'ops']
    level = 'exploration'
    assumptions = ASSUME + ['the sets of the file follow one another without lines in between',
                            'binary data that ends in a byte equal to a newline, directly followed by the delimiter, cannot be '
                            'told from data with the delimiter on its own line, and is left out']
    rule = 'Files of 1-5 random sets of every type with closing delimiters on their own line, at the end of the data, or mixed, ' \
           'with LF or CRLF, with or without a last newline, are repaired to default or given names while system calls or ' \
           'lines fail, are interrupted, or the process dies; the output is compared byte for byte with the expected one and ' \
           'read, the source must stay as it was, repetition must succeed and change nothing.'

    def gen(self, r, tier):
        sets = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = gen.gen_spec(r, ['58b', '58'] if r.random() < 0.45 else None, small_only=r.random() < 0.8)
            if r.random() < 0.1:
                x = {'u': r.choice(gen.UNSUPPORTED), 's': r.randrange(10 ** 5)}
            sets.append({'spec': x, 'own': int(r.random() < 0.7)})
        if r.random() < 0.012:
            # sets beyond the first blocks of the file
            sets.insert(r.randint(0, len(sets) - 1), {'spec': gen.gen_filler(r), 'own': int(r.random() < 0.7)})
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            fa = []
            if r.random() < 0.6:
                fa = [any_fault(r)]
                if fa[0]['sys'] == 'line' and r.random() < 0.7:
                    fa[0]['nth'] = r.randint(1, 60)
            if r.random() < 0.15:
                fa += benign(r, 0.8)
            ops.append({'out': r.choice([None, None, 'out.uff', 'data/o.uff', 'dir.d/q']), 'faults': fa,
                        'old': int(r.random() < 0.3)})
        return {'knobs': gen_knobs(r), 'name': r.choice(NAMES), 'sets': sets, 'crlf': int(r.random() < 0.25),
                'nonl': int(r.random() < 0.2), 'ops': ops}

    def bad(self, cls, msg):
        raise Violation('C11:' + cls, msg)

    def build(self, scn):
        """(source, expected, entries, may be fixed twice)"""
        nl = b'\r\n' if scn['crlf'] else b'\n'
        src, out, es, twice = b'', b'', [], True
        for x in scn['sets']:
            e = Entry(x['spec'])
            es.append(e)
            raw, own = e.raw, x['own']
            body = raw[:raw.rstrip(b' \r\n').rfind(b'    -1')]
            if e.fmt:
                if body.endswith((b'\n', b'\r')):
                    if not x['own']:
                        raise Abandon('binary data ends in a newline byte')
                    twice = False
                head, data = [], body
                for _ in range(13):
                    h, data = data.split(b'\n', 1)
                    head.append(h + nl)
                body = b''.join(head) + data
            else:
                if body.endswith(b'\n'):
                    body = body[:-1]
                own = own or body.endswith(b'\n')          # an empty line in front
                twice = twice and not body.endswith(b'\n')
                body = body.replace(b'\n', nl)
            src += body + (nl if own else b'') + b'    -1' + nl
            out += body + b'    -1' + nl
        if scn['nonl']:
            src, out = src[:-len(nl)], out[:-len(nl)]
        return src, out, es, twice

    def execute(self, scn, st, run):
        s = run.sim()
        s.w.dirs.add(W.PREFIX + '/dir.d')
        if not scn['sets']:
            raise Abandon('no sets')
        src, want, es, twice = self.build(scn)
        for e, x in zip(es, scn['sets']):
            st.types[('u' if e.type not in (int(t.rstrip('b')) for t in gen.TYPES) else str(e.type) + 'b' * e.fmt) +
                     (' own line' if x['own'] else '')] += 1
        f = scn['name']
        s.w.put(f, src)
        for n, op in enumerate(scn['ops']):
            base, ext = os.path.splitext(f)
            target = op['out'] or base + '_fixed' + ext
            if op['old']:
                s.w.put(target, b'old content\n' * 400)
            o = self.fix(s, f, op['out'], op['faults'])
            struck = any(not x.endswith((':short', ':stall')) for x in o.fired)
            st.judged += 1
            if s.w.get(f) != src:
                self.bad('source', 'op %d: the source file was changed (%s)' % (n, o))
            st.probes['%s%s' % (o.kind, ' (fault)' if struck else '')] += 1
            if o.kind == 'crash':
                s.restart()
            if o.ok():
                self.judge(s, n, target, want, es, st)
            elif not struck:
                self.bad('raise', 'op %d: raises %s' % (n, o.exc))
            else:
                # once the fault is gone
                o = self.fix(s, f, op['out'])
                if not o.ok():
                    self.bad('again', 'op %d: repeating raises %s' % (n, o.exc))
                if s.w.get(f) != src:
                    self.bad('source', 'op %d: the source file was changed by the repetition' % n)
                self.judge(s, n, target, want, es, st)
            if twice and s.w.norm(target) != s.w.norm(f):
                o = self.fix(s, target, 'again.uff')
                if not o.ok():
                    self.bad('twice', 'op %d: fixing the fixed file raises %s' % (n, o.exc))
                st.judged += 1
                if s.w.get('again.uff') != want:
                    self.bad('twice', 'op %d: fixing the fixed file changes it: %s' % (n, where_bytes(s.w.get('again.uff'), want)))

    def fix(self, s, f, out, faults=()):
        return s.call(lambda: s.pyuff.fix_58b(f) if out is None else s.pyuff.fix_58b(f, out), faults, 'fix_58b %s' % f)

    def judge(self, s, n, target, want, es, st):
        got = s.w.get(target)
        if got is None:
            self.bad('name', 'op %d: there is no output %s; there are %s' % (n, target, sorted(s.w.files)))
        if got != want:
            self.bad('bytes', 'op %d: %s' % (n, where_bytes(got, want)))
        s.open('r', target)
        d = diff_content(s, 'r', es, st)
        if d:
            self.bad('read-' + d[0], 'op %d: %s' % (n, d[1]))


def where_bytes(got, want):
    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return '%d bytes instead of %d, at %d %r instead of %r' % (len(got), len(want), i, got[max(0, i - 20):i + 20], want[max(0, i - 20):i + 20])
