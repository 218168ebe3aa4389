"""Several processes or threads: C06 (reader beside a writer), C17 (threads sharing an instance)."""
import copy as cp
import random as _random

from ..base import *
from .hist import benign, lookalike_spec
from .view import ASSUME


class Many(Check):
    assumptions = ASSUME + ['one thread runs at a time; switches happen at the points named in the rule']
    level = 'exploration'

    def concrete(self, scn):
        scn = cp.deepcopy(scn)
        if 'switches' not in scn:
            run = Run(scn, Stats(), False)
            try:
                self.execute(scn, run.st, run)
            except (Violation, Abandon, S.Unwritable):
                pass
            if getattr(run, 'taken', None) is not None:
                scn['switches'] = run.taken
            for s in run.sims:
                s.end()
        return scn

    def sched(self, s, scn, n, run):
        sc = W.Sched(s.w, n, scn.get('switches'), _random.Random('sched/%s' % scn.get('sseed')), scn.get('p', 0.2))
        s.w.sched = sc
        run.taken = sc.taken
        return sc

    def finish(self, s, sc, st):
        s.w.sched = None
        st.orders.add(sc.order_crc)
        st.threads += sc.n
        st.probes['switches'] += len(sc.taken)
        st.probes['scheduling points'] += sc.count
        for i, e in sc.failed:
            if isinstance(e, W.HarnessError):
                raise e
            raise W.HarnessError('thread %d: %r' % (i, e))


def attempt(s, proc, th, fn, label):
    """fn() as code under test in its own thread: (kind, value or message)."""
    w = s.w
    s.ops += 1
    with W.Ctx(w, proc, th):
        w.event('op', label)
        try:
            v = fn()
            kind = 'ok'
        except W.HarnessError:
            raise
        except BaseException as e:
            v, kind = '%s: %s' % (type(e).__name__, str(e)[:200]), 'raise'
            while e is not None:
                e.__traceback__ = None
                e = e.__context__
        if proc.dead:
            kind = 'crash'
        w.event('end', kind)
    return kind, v


class C06(Many):
    id = 'C06'
    quick, thorough = 16000, 600000
    lists = ['switches', 'init', 'calls', 'readers', 'faults']
    rule = 'One process adds 1-6 random sets in several calls (pieces of any size, delays, possibly killed in the middle) ' \
           'while 1-3 other processes construct instances, refresh, list and read; the running process may change at every ' \
           'system call. Each listing must be a whole prefix, never shorter than before or than what was acknowledged, and ' \
           'every listed set must read correctly at any later time.'

    def gen(self, r, tier):
        k = gen_knobs(r)
        if r.random() < 0.6:
            k['chunk'] = r.choice([7, 13, 30, 80, 81, 100, 160, 400])
        if r.random() < 0.5:
            k['buf'] = r.choice([16, 40, 64, 100, 512])
        readers = []
        for _ in range(r.choice([1, 1, 2, 3])):
            readers.append([{'do': r.choice(['new', 'new', 'refresh', 'refresh', 'refresh', 'read', 'one', 'list']), 'x': frac(r)}
                            for _ in range(r.randint(2, 8))])
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({'thread': 0, 'sys': 'write', 'nth': r.randint(1, 4), 'kind': 'short', 'arg': frac(r)})
        if r.random() < 0.25:
            faults.append({'thread': 0, 'sys': r.choice(['write', 'write', '*']), 'nth': r.randint(1, 20), 'kind': 'crash', 'arg': frac(r)})
        for _ in range(r.choice([0, 1, 1])):
            faults.append({'thread': r.randint(1, 3), 'sys': 'read', 'nth': r.randint(1, 6), 'kind': r.choice(['short', 'stall']), 'arg': frac(r)})
        return {'knobs': k, 'init': with_filler(r, call_specs(r, r.choice([0, 1, 2])), 0.03),
                'calls': [{'sets': call_specs(r, r.choice([1, 1, 2, 3]))} for _ in range(r.choice([1, 2, 3]))],
                'readers': readers, 'faults': faults, 'sseed': r.randrange(10 ** 9), 'p': r.choice([0.05, 0.2, 0.4, 0.7])}

    def bad(self, cls, msg):
        raise Violation('C06:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        w = s.w
        f = FILES[0]
        path = w.norm(f)
        init = [Entry(x) for x in scn['init']]
        calls = [[Entry(x) for x in c['sets']] for c in scn['calls']]
        every = init + [e for c in calls for e in c]
        if init:
            w.put(f, b''.join(e.raw for e in init))
        n0 = len(init)
        for e in every:
            st.types[str(e.type) + 'b' * e.fmt] += 1
        ends, at = set(), 0
        for e in every:
            ends.add(at + len(e.raw.rstrip(b' \r\n')))
            at += len(e.raw)
        sizes = [(0, len(w.get(f) or b''))]
        w.observers.append(lambda what, p, ino: sizes.append((w.seq, len(ino.data))) if p == path else None)
        prog = []                   # materialised sets of the writer
        u0 = s.open('w', f)
        for c in scn['calls']:
            o = s.call(lambda: [s.materialize(x)[0] for x in c['sets']], label='prepare')
            if not o.ok():
                raise Abandon('prepare raises')
            prog.append((o.value, force_double(c['sets'])))
        procs = [s.proc] + [w.new_proc() for _ in scn['readers']]
        mods = [s.pyuff] + [S.load(w, p) for p in procs[1:]]
        state = {'acked': n0, 'started': n0}
        found = []
        sc = self.sched(s, scn, len(procs), run)
        w.begin(scn['faults'])

        def fail(cls, msg, a):
            if found:
                return
            # a torn set whose last row looks like a delimiter: known
            final = w.get(f) or b''
            lens = [x for q, x in sizes if a <= q] + [[x for q, x in sizes if q <= a][-1]]
            known = any(lookalike_tail(final[:x], ends) for x in lens)
            found.append((cls, msg, known))

        def writer():
            for es, (ds, fd) in zip(calls, prog):
                state['started'] += len(es)
                k, v = attempt(s, s.proc, 0, lambda: s.inst['w'].write_sets(ds, 'add', force_double=fd), 'write')
                if k == 'crash':
                    st.probes['writer killed'] += 1
                    return
                if k != 'ok':
                    fail('write', 'the writer: %s' % v, 10 ** 12)
                    return
                state['acked'] += len(es)

        def reader(i):
            proc, mod = procs[i], mods[i]

            def body():
                u, n, last, a0 = None, None, 0, 0
                for step in scn['readers'][i - 1]:
                    if found:
                        return
                    do = step['do']
                    if u is None or do in ('new', 'refresh'):
                        a0, acked = w.seq, state['acked']
                        if u is None or do == 'new':
                            k, v = attempt(s, proc, i, lambda: mod.UFF(f), 'new')
                            if k != 'ok':
                                return fail('open', 'reader %d: constructing raises %s' % (i, v), a0)
                            u = v
                        else:
                            k, v = attempt(s, proc, i, u.refresh, 'refresh')
                            if k != 'ok' or not v and sizes_before(a0) > 0:
                                return fail('refresh', 'reader %d: refresh: %s %s' % (i, k, v), a0)
                        k, v = attempt(s, proc, i, u.get_status, 'status')
                        if k == 'ok' and not v and sizes_before(a0) == 0:
                            n = None       # no file yet (each get_ method looks again: not one listing)
                            continue
                        k, v = attempt(s, proc, i, lambda: (u.get_n_sets(), [int(x) for x in u.get_set_types()],
                                                            [int(x) for x in u.get_set_formats()], u.get_status()), 'list')
                        if k != 'ok':
                            return fail('list', 'reader %d: listing raises %s' % (i, v), a0)
                        n, types, fmts, status = v
                        st.judged += 1
                        if n < last:
                            return fail('shrunk', 'reader %d: %d sets after %d' % (i, n, last), a0)
                        if n < acked:
                            return fail('lost', 'reader %d: %d sets, %d acknowledged before' % (i, n, acked), a0)
                        if n > state['started']:
                            return fail('torn', 'reader %d: %d sets, only %d were being written' % (i, n, state['started']), a0)
                        if types != [e.type for e in every[:n]] or fmts != [e.fmt for e in every[:n]]:
                            return fail('order', 'reader %d: types %s formats %s' % (i, types, fmts), a0)
                        last = n
                        if n0 < n < len(every):
                            st.probes['listings in the middle'] += 1
                    if not n:
                        continue
                    x = step['x']
                    if do == 'one':
                        sel = [int(x * n)]
                        arg = sel[0]
                    elif do == 'list':
                        sel = [n - 1 - j for j in range(1 + int(x * n))]
                        arg = sel
                    else:
                        sel, arg = list(range(n)), None
                    k, v = attempt(s, proc, i, lambda: u.read_sets(arg) if arg is not None else u.read_sets(), 'read %s' % arg)
                    if k != 'ok':
                        return fail('read', 'reader %d: read_sets(%s) of %d listed raises %s' % (i, arg, n, v), a0)
                    got = as_list(v)
                    st.judged += 1
                    if len(got) != len(sel):
                        return fail('count', 'reader %d: read_sets(%s) gives %d sets, %d listed' % (i, arg, len(got), n), a0)
                    for g, j in zip(got, sel):
                        if not C.same(g, every[j].canon):
                            return fail('differ', 'reader %d: set %d: %s' % (i, j, C.where(g, every[j].canon)), a0)
            return body

        def sizes_before(a):
            return [x for q, x in sizes if q <= a][-1]
        try:
            sc.run([writer] + [reader(i) for i in range(1, len(procs))])
        finally:
            w.finish()
            self.finish(s, sc, st)
        if not found:
            # all is written: the next refresh sees everything that was acknowledged
            o = s.open('end', f) if not s.proc.dead else (s.restart(), s.open('end', f))[1]
            if o.ok() and (w.get(f) is not None or state['acked']):
                o = s.get('end', 'n')
                if not o.ok() or not state['acked'] <= o.value <= state['started']:
                    fail('lost', 'in the end %s sets, %d acknowledged' % (o, state['acked']), w.seq)
        if found:
            cls, msg, known = found[0]
            if known and 'torn-after-lookalike' in self.listed:
                st.known['torn-after-lookalike'] += 1
                raise Abandon('known finding')
            self.bad(cls, msg)

    def probes(self, listed):
        spec, fr = lookalike_spec()
        if not spec:
            return []
        old, self.listed = self.listed, set()
        try:
            for seed in range(60):
                scn = {'knobs': {}, 'init': [], 'calls': [{'sets': [spec]}],
                       'faults': [{'thread': 0, 'sys': 'write', 'nth': 1, 'kind': 'short', 'arg': fr}],
                       'readers': [[{'do': 'new', 'x': 0.0}] * 6], 'sseed': seed, 'p': 0.5}
                v, _ = self.run(scn)
                if v:
                    return [('torn-after-lookalike', v.msg, self.concrete(scn))]
        finally:
            self.listed = old
        return []


class C17(Many):
    id = 'C17'
    quick, thorough = 5000, 160000
    lines = 2
    lists = ['switches', 'sets', 'threads', 'faults']
    rule = '2-4 threads call read_sets (index, list, all, header only) and the get_ methods on one refreshed instance of a file ' \
           'with 1-4 random sets; the running thread may change at every system call and before every line and every bytecode ' \
           'instruction of pyuff, with partial reads and delays; each result must equal that of the same call made alone.'

    def gen(self, r, tier):
        threads = []
        for _ in range(r.choice([2, 2, 3, 4])):
            threads.append([{'do': r.choice(['one', 'one', 'one', 'list', 'all', 'head', 'n', 'types', 'formats', 'status', 'exists']),
                             'x': frac(r)} for _ in range(r.randint(1, 3))])
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({'thread': r.randrange(4), 'sys': 'read', 'nth': r.randint(1, 4), 'kind': r.choice(['short', 'stall']), 'arg': frac(r)})
        types = r.sample(gen.TYPES, r.choice([1, 2, 16]))
        sets = [gen.gen_spec(r, types, small_only=True) for _ in range(r.choice([1, 2, 3, 4]))]
        for x in sets:
            x['n'] = min(x['n'], 6)
        return {'knobs': gen_knobs(r), 'sets': sets, 'threads': threads, 'faults': faults, 'sseed': r.randrange(10 ** 9),
                'p': r.choice([0.0003, 0.002, 0.01, 0.05, 0.2]), 'same': int(r.random() < 0.3)}

    def execute(self, scn, st, run):
        s = run.sim()
        w = s.w
        f = FILES[0]
        es = [Entry(x) for x in scn['sets']]
        if not es or not scn['threads']:
            raise Abandon('nothing to do')
        w.put(f, b''.join(e.raw for e in es))
        for e in es:
            st.types[str(e.type) + 'b' * e.fmt] += 1
        o = s.open('u', f)
        if not o.ok():
            raise Abandon('cannot be opened')
        o = s.get('u', 'types')
        if not o.ok() or o.value != [e.type for e in es]:
            raise Abandon('sets are missing')
        u = s.inst['u']
        n = len(es)

        def job(step):
            do, i = step['do'], int(step['x'] * n)
            if scn.get('same'):
                i = 0
            c = [e.canon for e in es]
            if do == 'one':
                return lambda: u.read_sets(i), c[i]
            if do == 'head':
                h = dict(c[i])
                if h.get('type') == 58:
                    h['x'] = h['data'] = None
                return lambda: u.read_sets(i, header_only=True), h
            if do == 'list':
                sel = list(range(i, n)) + [i]
                return lambda: u.read_sets(sel), [c[j] for j in sel]
            if do == 'all':
                return lambda: u.read_sets(), c if n > 1 else c[0]
            if do == 'n':
                return u.get_n_sets, n
            if do == 'types':
                return lambda: [int(x) for x in u.get_set_types()], [e.type for e in es]
            if do == 'formats':
                return lambda: [int(x) for x in u.get_set_formats()], [e.fmt for e in es]
            if do == 'status':
                return u.get_status, True
            return u.file_exists, True
        found = []
        sc = self.sched(s, scn, len(scn['threads']), run)

        def thread(i):
            def body():
                for j, step in enumerate(scn['threads'][i]):
                    if found:
                        return
                    fn, want = job(step)
                    k, v = attempt(s, s.proc, i, fn, step['do'])
                    st.judged += 1
                    if k != 'ok':
                        found.append(('raise', 'thread %d, call %d (%s %s): %s' % (i, j, step['do'], step['x'], v)))
                    elif not C.same(v, want) and not (step['do'] in ('status', 'exists') and bool(v) == want):
                        found.append(('differ', 'thread %d, call %d (%s %s): %s' % (i, j, step['do'], step['x'], C.where(v, want))))
            return body
        w.begin(scn['faults'])
        S.line_hook = lambda code, line: sc.point()
        try:
            sc.run([thread(i) for i in range(len(scn['threads']))])
        finally:
            S.line_hook = None
            w.finish()
            self.finish(s, sc, st)
        if found:
            raise Violation('C17:' + found[0][0], found[0][1])


class C22(Many):
    id = 'C22'
    quick, thorough = 5000, 160000
    lines = 2
    lists = ['switches', 'threads', 'faults']
    rule = '2-4 threads of one program each work on a file and instance of their own (prepare, add, overwrite, refresh, read, ' \
           'list, construct again, fix_58b, convert); the running thread may change at every system call and before every line and every bytecode ' \
           'instruction of pyuff, with partial transfers and delays; each thread must see its own sets only, exactly as if it ' \
           'were alone, and its file must hold exactly the bytes its calls write when made alone.'
    NAMES = FILES + ['d.uff']

    def gen(self, r, tier):
        types = r.sample(gen.TYPES, r.choice([1, 1, 2, 16]))
        threads = []
        for _ in range(r.choice([2, 2, 3, 4])):
            ops = []
            for k in range(r.randint(1, 4)):
                x = r.random()
                if k == 0 or x < 0.5:
                    sets = call_specs(r, r.choice([1, 1, 2]), types)
                    for q in sets:
                        q['n'] = min(q['n'], 6)
                    ops.append({'do': r.choice(['add', 'add', 'overwrite']), 'sets': sets, 'late': int(r.random() < 0.5)})
                else:
                    ops.append({'do': r.choice(['read', 'read', 'one', 'list', 'new', 'refresh', 'head', 'fix', 'convert']), 'x': frac(r)})
            ops.append({'do': 'read', 'x': 0.0})
            threads.append(ops)
        if r.random() < 0.5:
            # twins: the threads make the same calls, with other content
            for ops in threads[1:]:
                ops[:] = [dict(op, sets=[dict(x, s=r.randrange(10 ** 6)) for x in op['sets']]) if 'sets' in op else dict(op)
                          for op in threads[0]]
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({'thread': r.randrange(4), 'sys': r.choice(['read', 'write']), 'nth': r.randint(1, 4),
                           'kind': r.choice(['short', 'stall']), 'arg': frac(r)})
        return {'knobs': gen_knobs(r), 'threads': threads, 'faults': faults, 'sseed': r.randrange(10 ** 9),
                'p': r.choice([0.0003, 0.002, 0.01, 0.05, 0.2])}

    def execute(self, scn, st, run):
        s = run.sim()
        w = s.w
        threads = scn['threads'][:len(self.NAMES)]
        if not threads:
            raise Abandon('nothing to do')
        plan = []
        for ops in threads:
            p = []
            for op in ops:
                if op['do'] in ('add', 'overwrite'):
                    es = [Entry(x) for x in op['sets']]
                    ds = None
                    if not op.get('late'):
                        o = s.call(lambda: [s.materialize(x)[0] for x in op['sets']], label='prepare')
                        if not o.ok():
                            raise Abandon('prepare raises')
                        ds = o.value
                    p.append((op, es, ds))
                    for e in es:
                        st.types[str(e.type) + 'b' * e.fmt] += 1
                else:
                    p.append((op, None, None))
            plan.append(p)
        found = []
        sc = self.sched(s, scn, len(plan), run)
        finals = [b''] * len(plan)
        again = []                  # what is to be repeated by a thread alone

        def thread(i):
            f = self.NAMES[i]

            def fail(j, op, cls, msg):
                found.append((cls, 'thread %d (%s), call %d (%s): %s' % (i, f, j, op['do'], msg)))

            def body():
                u, m = None, []
                for j, (op, es, ds) in enumerate(plan[i]):
                    if found:
                        return
                    if u is None or op['do'] == 'new':
                        k, u = attempt(s, s.proc, i, lambda: s.pyuff.UFF(f), 'new')
                        if k != 'ok':
                            return fail(j, op, 'open', u)
                    if es is not None:
                        if ds is None:
                            k, ds = attempt(s, s.proc, i, lambda: [s.materialize(x)[0] for x in op['sets']], 'prepare')
                            if k != 'ok':
                                return fail(j, op, 'prepare', ds)
                        k, v = attempt(s, s.proc, i, lambda: u.write_sets(ds, op['do'], force_double=force_double(op['sets'])), op['do'])
                        if k != 'ok':
                            return fail(j, op, 'write', v)
                        m = (m if op['do'] == 'add' else []) + es
                        finals[i] = b''.join(e.raw for e in m)
                        continue
                    if not m:
                        continue
                    st.judged += 1
                    k, v = attempt(s, s.proc, i, lambda: (u.get_n_sets(), [int(x) for x in u.get_set_types()],
                                                          [int(x) for x in u.get_set_formats()], bool(u.get_status())), 'list')
                    if k != 'ok':
                        return fail(j, op, 'list', v)
                    if v != (len(m), [e.type for e in m], [e.fmt for e in m], True):
                        return fail(j, op, 'list', 'lists %s instead of %s' % (v, (len(m), [e.type for e in m], [e.fmt for e in m])))
                    n = len(m)
                    x = int(op['x'] * n)
                    want = [e.canon for e in m]
                    if op['do'] == 'refresh':
                        k, v = attempt(s, s.proc, i, u.refresh, 'refresh')
                        if k != 'ok' or not v:
                            return fail(j, op, 'refresh', v)
                        continue
                    if op['do'] == 'fix':
                        out = 'fixed%d.uff' % i
                        k, v = attempt(s, s.proc, i, lambda: s.pyuff.fix_58b(f, out), 'fix')
                        if k != 'ok':
                            return fail(j, op, 'fix', v)
                        again.append(('fix', i, j, finals[i], w.get(out)))
                        continue
                    if op['do'] == 'convert':
                        given = copy.deepcopy(want)
                        k, v = attempt(s, s.proc, i, lambda: s.pyuff.tools.convert_dataset_2412_to_82(given), 'convert')
                        if k != 'ok':
                            return fail(j, op, 'convert', v)
                        again.append(('convert', i, j, want, v))
                        continue
                    if op['do'] == 'one':
                        arg, want = [x], want[x]
                    elif op['do'] == 'head':
                        arg, want = [x], dict(want[x])
                        if want['type'] == 58:
                            want['x'] = want['data'] = None
                    elif op['do'] == 'list':
                        arg = [list(range(x, n))]
                        want = want[x:]
                    else:
                        arg, want = [], want if n > 1 else want[0]
                    k, v = attempt(s, s.proc, i, lambda: u.read_sets(*arg, header_only=op['do'] == 'head'), 'read')
                    if k != 'ok':
                        return fail(j, op, 'read', v)
                    if len(as_list(want)) == 1:
                        v, want = as_list(v), as_list(want)
                    if not C.same(v, want):
                        return fail(j, op, 'differ', C.where(v, want))
            return body
        w.begin(scn['faults'])
        S.line_hook = lambda code, line: sc.point()
        try:
            sc.run([thread(i) for i in range(len(plan))])
        finally:
            S.line_hook = None
            w.finish()
            self.finish(s, sc, st)
        if not found:
            for i, b in enumerate(finals):
                if (w.get(self.NAMES[i]) or b'') != b:
                    found.append(('bytes', 'the file of thread %d differs from what its calls write alone' % i))
            for what, i, j, given, got in again:
                if what == 'fix':
                    w.put('alone.uff', given)
                    o = s.call(lambda: s.pyuff.fix_58b('alone.uff', 'alone2.uff'), label='fix alone')
                    same = o.ok() and w.get('alone2.uff') == got
                else:
                    o = s.call(lambda: s.pyuff.tools.convert_dataset_2412_to_82(copy.deepcopy(given)), label='convert alone')
                    same = o.ok() and C.same(o.value, got)
                st.judged += 1
                if not same:
                    found.append((what, 'thread %d, call %d: %s gives another result than alone (%s)' % (i, j, what, o)))
            s.call(lambda: None, label='end')
        if found:
            raise Violation('C22:' + found[0][0], found[0][1])


class C24(Many):
    id = 'C24'
    quick, thorough = 8000, 250000
    lists = ['switches', 'init', 'writers', 'faults']
    assumptions = Many.assumptions + [
        'the disk takes the bytes of one write call at the end of the file as a whole (POSIX O_APPEND), sets take less than a '
        'buffer (8 KiB), and no program is killed while it writes']
    rule = '2-4 processes or threads, each with an instance of its own, add sets to one file (possibly missing, empty, or without final ' \
           'line end) at the same time; the running one may change at every system call, processes are killed between their ' \
           'writes, reads are short, calls are delayed. The file must hold what it held and all sets of all calls, those of each ' \
           'program in order, and each instance must see what was acknowledged and read it correctly.'
    SMALL = 7000

    def gen(self, r, tier):
        k = gen_knobs(r, chunks=False)
        k.pop('buf', None)
        if r.random() < 0.3:
            k['buf'] = r.choice([8192, 65536])
        writers = []
        for _ in range(r.choice([2, 2, 2, 3, 4])):
            steps = []
            for _ in range(r.choice([1, 1, 2, 3])):
                steps.append({'do': 'add', 'sets': call_specs(r, r.choice([1, 1, 2, 3]))})
                if r.random() < 0.4:
                    steps.append({'do': r.choice(['read', 'list', 'refresh', 'new']), 'sets': []})
            writers.append(steps)
        for x in [x for c in writers for q in c for x in q['sets']]:
            x['n'] = min(x['n'], 12)
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({'thread': r.randrange(4), 'sys': r.choice(['read', 'read', '*']), 'nth': r.randint(1, 12), 'kind': 'stall', 'arg': frac(r)})
        if r.random() < 0.3:
            faults.append({'thread': r.randrange(4), 'sys': 'read', 'nth': r.randint(1, 6), 'kind': 'short', 'arg': frac(r)})
        if r.random() < 0.2:
            faults.append({'thread': r.randint(1, 3), 'sys': r.choice(['open', 'read', 'stat']), 'nth': r.randint(1, 12), 'kind': 'crash', 'arg': 0.0})
        return {'knobs': k, 'init': with_filler(r, call_specs(r, r.choice([0, 0, 1, 2])), 0.03), 'start': r.choice(['', '', 'nonl', 'empty']),
                'writers': writers, 'threads': int(r.random() < 0.3), 'faults': faults, 'sseed': r.randrange(10 ** 9),
                'p': r.choice([0.05, 0.2, 0.4, 0.7])}

    def bad(self, cls, msg):
        raise Violation('C24:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        w = s.w
        f = FILES[0]
        init = [Entry(x) for x in scn['init']]
        plans = [[[Entry(x) for x in q['sets']] for q in c] for c in scn['writers']]
        if len(plans) < 2:
            raise Abandon('one writer')
        old = b''.join(e.raw for e in init)
        if init and scn['start'] == 'nonl':
            old = old[:-1]
        if init or scn['start'] == 'empty':
            w.put(f, old)
        n0 = len(init)
        for p in plans:
            for es in p:
                for e in es:
                    st.types[str(e.type) + 'b' * e.fmt] += 1
                    if len(e.raw) > self.SMALL:
                        raise Abandon('a set is longer than a buffer')
        prog = []
        for c in scn['writers']:
            o = s.call(lambda: [([s.materialize(x)[0] for x in q['sets']], force_double(q['sets'])) for q in c], label='prepare')
            if not o.ok():
                raise Abandon('prepare raises')
            prog.append(o.value)
        threads = bool(scn.get('threads'))
        procs = [s.proc if threads or not i else w.new_proc() for i in range(len(plans))]
        mods = [s.pyuff if threads or not i else S.load(w, p) for i, p in enumerate(procs)]
        state = {'acked': n0}
        mine = [[] for _ in plans]          # sets of finished calls
        under = [[] for _ in plans]         # and of the call being made
        dead = set()
        views, found = [], []
        sc = self.sched(s, scn, len(plans), run)
        faults = [q for q in scn['faults'] if not threads or q['kind'] != 'crash']
        w.begin(faults)

        def writer(i):
            proc, mod = procs[i], mods[i]

            def fail(cls, msg):
                found.append((cls, 'program %d: %s' % (i, msg)))

            def body():
                u = None
                for q, es, (ds, fd) in zip(scn['writers'][i], plans[i], prog[i]):
                    if found:
                        return
                    if u is None or q['do'] == 'new':
                        k, u = attempt(s, proc, i, lambda: mod.UFF(f), 'new')
                        if k == 'crash':
                            return dead.add(i)
                        if k != 'ok':
                            return fail('open', 'constructing raises %s' % u)
                    acked = state['acked']
                    if q['do'] == 'add':
                        under[i] = es
                        k, v = attempt(s, proc, i, lambda: u.write_sets(ds, 'add', force_double=fd), 'write')
                        if k == 'crash':
                            return dead.add(i)
                        if k != 'ok':
                            return fail('write', 'writing sets of types %s raises %s' % ([e.type for e in es], v))
                        under[i] = []
                        mine[i].extend(es)
                        state['acked'] += len(es)
                        acked += len(es)
                        at_least = acked
                    else:
                        at_least = None
                        if q['do'] in ('refresh', 'new'):
                            k, v = attempt(s, proc, i, u.refresh, 'refresh')
                            if k == 'crash':
                                return dead.add(i)
                            if k != 'ok':
                                return fail('refresh', 'refresh raises %s' % v)
                            if not v and acked:
                                return fail('refresh', 'refresh is %s' % v)
                            at_least = acked
                    if at_least is None and not mine[i]:
                        continue
                    k, n = attempt(s, proc, i, u.get_n_sets, 'n')
                    if k == 'crash':
                        return dead.add(i)
                    if k != 'ok':
                        return fail('list', 'get_n_sets raises %s' % n)
                    st.judged += 1
                    if at_least is not None and n < at_least:
                        return fail('lost', '%d sets are listed after %s, %d were acknowledged' % (n, q['do'], at_least))
                    if not n or q['do'] == 'list':
                        continue
                    k, v = attempt(s, proc, i, u.read_sets, 'read')
                    if k == 'crash':
                        return dead.add(i)
                    if k != 'ok':
                        return fail('read', 'reading the %d sets listed raises %s' % (n, v))
                    views.append((i, n, as_list(v)))
            return body
        try:
            sc.run([writer(i) for i in range(len(plans))])
        finally:
            w.finish()
            self.finish(s, sc, st)
        if found:
            self.bad(*found[0])
        now = w.get(f) or b''
        if not now.startswith(old):
            self.bad('changed', 'what the file held before has changed')
        # in the end
        if s.proc.dead:
            s.restart()
        o = s.open('end', f)
        if not o.ok():
            self.bad('open', 'in the end constructing raises %s' % o.exc)
        if not state['acked'] and w.get(f) is None:
            return
        o = s.get('end', 'n')
        seqs = [m + q for m, q in zip(mine, under)]
        least, most = n0 + sum(len(m) for m in mine), n0 + sum(len(m) for m in seqs)
        if not o.ok() or not least <= o.value <= most:
            self.bad('count', 'in the end %s sets, %d acknowledged and %d begun' % (o, least, most))
        if not o.value:
            return
        n = o.value
        o = s.read('end')
        if not o.ok():
            self.bad('read', 'in the end reading all sets raises %s' % o.exc)
        got = as_list(o.value)
        # an interleaving of what the programs wrote
        at = {tuple(0 for _ in seqs)}
        for j, g in enumerate(got):
            st.judged += 1
            if j < n0:
                if not C.same(g, init[j].canon):
                    self.bad('differ', 'set %d, which was there before, differs: %s' % (j, C.where(g, init[j].canon)))
                continue
            nxt = set()
            for pos in at:
                for i, m in enumerate(seqs):
                    if pos[i] < len(m) and C.same(g, m[pos[i]].canon):
                        nxt.add(pos[:i] + (pos[i] + 1,) + pos[i + 1:])
            if not nxt:
                self.bad('order', 'set %d (type %s) is none of those that come next: %s'
                         % (j, g.get('type'), [[e.type for e in m[p:p + 1]] for m, p in zip(seqs, sorted(at)[0])]))
            at = nxt
        if not any(all(p >= len(m) for p, m in zip(pos, mine)) for pos in at):
            self.bad('lost', 'acknowledged sets are missing in the end: %s of %s' % (sorted(at), [len(m) for m in mine]))
        for i, k, v in views:
            st.judged += 1
            if len(v) != k or not C.same(v, got[:k]):
                self.bad('view', 'program %d read %d sets (%d listed) other than the first ones of the file: %s' % (i, len(v), k, C.where(v, got[:k])))
        st.probes['sets added beside others'] += n - n0
        if dead:
            st.probes['programs killed'] += len(dead)
