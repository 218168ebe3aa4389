"""What an operation does to the disk: C09 (no other file), C10 (no file left open)."""
from ..base import *
from .hist import Hist, any_fault, gen_foreign, foreign_bytes
from .view import read_fault, ASSUME

DECOYS = ['a.uff~', 'a.uff.tmp', 'a.uff.bak', 'a_fixed.uff', 'a.tmp', 'a', 'tmp', 'data/a.uff', 'A.UFF', 'b_fixed.uff', '.a.uff.swp',
          '58', '-1', 'a.uff.lock']


PATHS = [' a.uff', 'a.uff ', 'a b.uff', 'a', '.uff', 'a.', 'a.uff.uff', 'data/a', 'data.x/a', './a.uff', 'data/../a.uff', 'A.uff',
         'ä.uff', '~a.uff', '$a.uff', '*.uff', '-1', '%20.uff', 'a_fixed.uff']


class Mixed(Hist):
    """Random operations of every kind under random faults, on files with random content."""
    assumptions = ASSUME
    lists = ['ops', 'decoys']
    line_faults = True

    def gen(self, r, tier):
        ops = [gen_foreign(r)]
        if r.random() < 0.5:
            ops.append(dict(gen_foreign(r), f=FILES[1]))
        for _ in range(r.randint(2, 8)):
            k = r.random()
            f = FILES[0] if r.random() < 0.75 else FILES[1]
            op = {'f': f, 'i': r.randrange(2), 'faults': []}
            if k < 0.07:
                ops.append({'op': 'restart'})
                continue
            if k < 0.15:
                op['op'] = 'new'
            elif k < 0.35:
                op.update(op='read', n=r.choice([None, None, 0, 1, [0, 1], 99, -1, []]), header=int(r.random() < 0.3))
            elif k < 0.5:
                op.update(op='get', what=r.choice(['n', 'types', 'formats', 'status', 'exists', 'refresh', 'name']))
            elif k < 0.6:
                op.update(op='fix', out=r.choice([None, None, None, 'fixed.uff', 'data/f.uff', 'nodir/f.uff']))
            else:
                sets = call_specs(r, r.choice([1, 1, 2, 3]))
                if r.random() < 0.3:
                    sets.insert(r.randint(0, len(sets)), gen.gen_bad(r))
                if r.random() < 0.1:
                    sets.insert(r.randint(0, len(sets)), {'u': r.choice(gen.UNSUPPORTED), 's': 1})
                if r.random() < 0.04:
                    sets = []
                op.update(op='write', sets=sets, mode=r.choice(['add', 'add', 'add', 'overwrite', 'overwrite', 'append', 'Overwrite', '']))
                if r.random() < 0.3:
                    op['single'] = 1
            if r.random() < 0.55:
                op['faults'] = [(any_fault(r, self.line_faults) if op['op'] in ('write', 'fix') or r.random() < 0.3 else
                                 read_fault(r, self.line_faults)) for _ in range(r.choice([1, 1, 1, 2]))]
                if not self.line_faults:
                    op['faults'] = [x for x in op['faults'] if x['kind'] not in ('crash', 'power')]
            ops.append(op)
        names = {}
        if r.random() < 0.25:
            names[FILES[0]] = r.choice(PATHS)
        return {'knobs': gen_knobs(r), 'names': names, 'ops': ops, 'decoys': r.sample(DECOYS, r.randint(0, 4))}

    def prepare(self, n, op):
        pass

    def judge(self, n, op, o, own):
        raise NotImplementedError

    def execute(self, scn, st, run):
        self.start(scn, st, run)
        s = self.s
        for d in scn['decoys']:
            s.w.put(d, b'decoy %s\n' % d.encode())
        for n, op in enumerate(scn['ops']):
            if op['op'] == 'restart':
                self.restart()
                continue
            f = scn.get('names', {}).get(op['f'], op['f'])
            op = dict(op, f=f)
            if op['op'] == 'init':
                b, _ = foreign_bytes(op)
                if b is not None and f not in scn['decoys']:
                    s.w.put(f, b)
                continue
            k = self.key(op)
            if op['op'] == 'new' or op['op'] != 'fix' and k not in s.inst:
                self.prepare(n, op)
                o = s.open(k, f, op['faults'] if op['op'] == 'new' else ())
                self.judge(n, dict(op, op='new'), o, ())
                if k not in s.inst or op['op'] == 'new':
                    if s.proc.dead:
                        self.restart()
                    continue
            ds = None
            if op['op'] == 'write':
                try:
                    ds = self.args_of(op)
                except Abandon:
                    continue
            self.prepare(n, op)
            if op['op'] == 'write':
                o = s.write(k, ds, op['mode'], force_double(op['sets']), op['faults'])
                self.judge(n, op, o, (s.w.norm(f),))
            elif op['op'] == 'read':
                u = s.inst[k]
                o = s.call(lambda: u.read_sets(op['n'], header_only=bool(op['header'])), op['faults'], 'read %s' % op['n'])
                self.judge(n, op, o, ())
            elif op['op'] == 'get':
                o = s.get(k, op['what'], op['faults'])
                self.judge(n, op, o, ())
            else:
                base, ext = os_splitext(f)
                out = op['out'] or base + '_fixed' + ext
                o = s.call(lambda: s.pyuff.fix_58b(f, op['out']) if op['out'] else s.pyuff.fix_58b(f), op['faults'], 'fix_58b %s' % f)
                self.judge(n, op, o, (s.w.norm(out),))
            st.probes['%s: %s' % (op['op'], o.kind)] += 1
            if s.proc.dead:
                self.restart()


def os_splitext(f):
    import os.path
    return os.path.splitext(f)


class C09(Mixed):
    id = 'C09'
    quick, thorough = 20000, 800000
    lines = 1
    level = 'exploration'
    rule = 'Random operations (construct, refresh, get_*, read_sets, write_sets, fix_58b) on two files with own, foreign, torn ' \
           'and arbitrary content beside decoy files, under failing and interrupted system calls, failing allocations, crashes ' \
           'at any line; every create, write, truncate, rename, delete of the simulated disk is recorded and must concern the ' \
           'file the operation may change.'

    def prepare(self, n, op):
        self.before = self.s.w.snapshot()
        self.dirs = set(self.s.w.dirs)

    def judge(self, n, op, o, own):
        w = self.s.w
        self.st.judged += 1

        def bad(what, msg):
            raise Violation('C09:%s-%s' % (op['op'], what), 'op %d: %s (%s): %s' % (n, op['op'], o, msg))
        if not own:
            if o.touched:
                bad('touched', 'a reading operation changes the disk: %s' % o.touched)
        else:
            for p in o.touched:
                if p not in own and p in self.before:
                    bad('other', 'another file is touched: %s %s' % (p, o.touched[p]))
        if o.kind == 'crash':
            # temporary files of a dead process are not judged, but only its own file changes
            if any(f['kind'] == 'power' for f in op['faults']):
                return
        now = w.snapshot()
        for p in set(now) | set(self.before):
            if p in own:
                continue
            if p not in now:
                bad('gone', '%s is gone' % p)
            if p not in self.before:
                if o.kind != 'crash':
                    bad('left', '%s has been created' % p)
            elif now[p] != self.before[p]:
                bad('other', '%s has been changed' % p)
        if w.dirs != self.dirs and o.kind != 'crash':
            bad('dir', 'directories: %s' % (w.dirs ^ self.dirs))


class C10(Mixed):
    id = 'C10'
    quick, thorough = 20000, 800000
    level = 'exploration'
    line_faults = False
    rule = 'Random operations (construct, refresh, get_*, read_sets, write_sets, fix_58b) on two files with own, foreign, torn ' \
           'and arbitrary content, with sets that cannot be written or read, under failing and interrupted system calls and ' \
           'failing allocations in them; after every operation no simulated file may be open.'

    def judge(self, n, op, o, own):
        self.st.judged += 1
        if o.leaks and o.kind != 'crash':
            raise Violation('C10:' + op['op'], 'op %d: %s (%s) leaves open: %s' % (n, op['op'], o, o.leaks))
