"""Data that callers and pyuff hand to each other: C23."""
import copy as cp

from ..base import *
from .hist import any_fault, benign
from .view import ASSUME, scribble

# what writing sets in the caller's dictionary by itself, by the documentation of write_sets
AUTOMATIC = {58: {'ord_data_type', 'n_bytes', 'abscissa_min', 'data', 'x'}}


def arrays(v, out=None):
    """All arrays and lists within a value."""
    out = [] if out is None else out
    if isinstance(v, dict):
        for x in v.values():
            arrays(x, out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            if isinstance(x, (dict, list, tuple, S.np.ndarray)):
                arrays(x, out)
    elif isinstance(v, S.np.ndarray):
        out.append(v)
    return out


def intact(now, then):
    """Everything supplied is still there as it was (optional fields may have been added)."""
    if isinstance(then, dict):
        return isinstance(now, dict) and all(k in now and intact(now[k], then[k]) for k in then)
    if isinstance(then, (list, tuple)):
        return type(now) is type(then) and len(now) == len(then) and all(intact(x, y) for x, y in zip(now, then))
    return C.same(now, then) or type(now) in (complex, S.np.complex128) and now == then


class C23(Check):
    id = 'C23'
    quick, thorough = 10000, 400000
    lists = ['ops', 'sets']
    level = 'exploration'
    assumptions = ASSUME
    rule = 'A pool of dictionaries, some of them sharing their arrays with one another and some with arrays in unusual memory ' \
           'forms (views, reversed, read-only, byte-swapped, column order), is written again and again, several times in one ' \
           'call, to several files, in both modes and read back, while the caller changes dictionaries it has written and ' \
           'results it has got; arrays and values supplied must not change, results must not change by themselves, and every ' \
           'reading must give the sets as they were when they were written.'

    def gen(self, r, tier):
        sp = r.random() < 0.2
        sets = []
        n = r.choice([1, 2, 2, 3, 4])
        for i in range(n):
            x = gen.gen_spec(r, small_only=r.random() < 0.9)
            if x['t'] == '58':
                x['o'].pop('sp', None)
                x['o'].pop('dp', None)
                if sp:
                    x['o']['sp'] = 1
            if r.random() < 0.4:
                x['o']['form'] = r.choice(gen.FORMS)
            if r.random() < 0.12:
                x = gen.gen_bad(r)
            e = {'spec': x}
            if i and r.random() < 0.45:
                e = {'share': r.randrange(i)}
            sets.append(e)
        ops = []
        for _ in range(r.randint(2, 9)):
            k = r.random()
            f = r.randrange(2)
            if k < 0.5 or not ops:
                ops.append({'op': 'write', 'f': f, 'ids': [r.randrange(n) for _ in range(r.choice([1, 1, 2, 3]))],
                            'mode': r.choice(['add', 'add', 'add', 'overwrite']), 'faults': benign(r, 0.15)})
                if r.random() < 0.12:
                    ops[-1]['faults'] = [any_fault(r)]
                    if ops[-1]['faults'][0]['kind'] in ('crash', 'power'):
                        ops[-1]['faults'][0]['kind'] = 'int'
                    ops[-1]['fails'] = 1
            elif k < 0.85:
                ops.append({'op': 'read', 'f': f, 'how': r.choice(['all', 'all', 'one', 'list', 'head', 'dup']), 'x': frac(r),
                            'scribble': int(r.random() < 0.5), 'faults': benign(r, 0.1)})
            elif k < 0.9:
                ops.append({'op': 'change', 'id': r.randrange(n)})
            elif k < 0.96:
                i = r.randrange(n)
                y = sets[root({'sets': sets}, i)]['spec']
                if 'bad' not in y and y['t'] != '151':       # 151: dates not given are those of its first writing
                    o = {k: v for k, v in y['o'].items() if k != 'form'}
                    if y['t'] == '58':
                        # single precision stays what it is for the pool; all else may be another
                        for q in ('cx', 'even', 'bin', 'x', 'nan'):
                            o.pop(q, None)
                            if q != 'x' and r.random() < 0.5:
                                o[q] = 1
                    ops.append({'op': 'reuse', 'id': i, 'spec': dict(y, s=r.randrange(10 ** 6), n=r.randrange(9) if y['t'] == '58' else y['n'],
                                                                   o=o)})
                    ops.append({'op': 'write', 'f': f, 'ids': [i], 'mode': 'add', 'faults': []})
            elif k < 0.98:
                ops.append({'op': 'new', 'f': f})
            if k >= 0.95 or r.random() < 0.08:
                ops.append({'op': 'list', 'f': f, 'scribble': int(r.random() < 0.6)})
                if r.random() < 0.5:
                    ops.append({'op': 'read', 'f': f, 'how': r.choice(['all', 'one', 'list']), 'x': frac(r), 'scribble': 0, 'faults': []})
        ops.append({'op': 'read', 'f': 0, 'how': 'all', 'x': 0.0, 'scribble': 0, 'faults': []})
        ops.append({'op': 'read', 'f': 1, 'how': 'all', 'x': 0.0, 'scribble': 0, 'faults': []})
        return {'knobs': gen_knobs(r), 'sets': sets, 'ops': ops}

    def bad(self, cls, msg):
        raise Violation('C23:' + cls, msg)

    def execute(self, scn, st, run):
        s = run.sim()
        pool, specs, first = [], [], []
        for e in scn['sets']:
            if 'share' in e and e['share'] < len(pool):
                pool.append(dict(pool[e['share']]))
                specs.append(specs[e['share']])
                st.probes['dictionaries sharing arrays'] += 1
            elif 'share' in e:
                pool.append(None)
                specs.append(None)
            else:
                x = e['spec']
                o = s.call(lambda: s.materialize(x), label='prepare')
                if not o.ok():
                    raise Abandon('prepare raises %s' % o.exc)
                pool.append(o.value[0])
                specs.append(x)
                if x['o'].get('form'):
                    st.probes['form ' + x['o']['form']] += 1
        given = []                  # what the caller supplied, for each dictionary
        for d in pool:
            given.append(None if d is None else (cp.deepcopy(d), [(a, cp.deepcopy(a)) for a in arrays(d)]))
        content = {0: [], 1: []}
        kept = []                   # results and what they were
        changed = set()
        supported = None            # what get_supported_sets gives at first
        plain = [x if x is None or 'bad' in x else {**x, 'o': {k: v for k, v in x['o'].items() if k != 'form'}} for x in specs]

        def settle(n, what):
            for i, g in enumerate(given):
                if g is None or i in changed:
                    continue
                st.judged += 1
                for a, b in g[1]:
                    if not intact(a, b):
                        self.bad('array', 'op %d: %s changed an array of the caller (dictionary %d, type %s): %s'
                                 % (n, what, i, pool[i].get('type'), C.where(a, b)))
                d = pool[i]
                for k in g[0]:
                    if k in AUTOMATIC.get(g[0].get('type'), ()) and k in d:
                        continue
                    if k not in d or not intact(d[k], g[0][k]):
                        self.bad('value', 'op %d: %s changed a value of the caller (dictionary %d, type %s): %r was %s and is %s'
                                 % (n, what, i, g[0].get('type'), k, C.short(g[0][k]), C.short(d.get(k))))
            for v, c in kept:
                st.judged += 1
                if not C.same(v, c):
                    self.bad('result', 'op %d: %s changed an earlier result: %s' % (n, what, C.where(v, c)))

        for n, op in enumerate(scn['ops']):
            what = op['op']
            if what == 'change':
                i = op['id']
                if i >= len(pool) or pool[i] is None or i in changed:
                    continue
                # those that share arrays with it change as well
                mine = {id(a) for a in arrays(pool[i])}
                for j, d in enumerate(pool):
                    if d is not None and (j == i or any(id(a) in mine for a in arrays(d)) or root(scn, j) == root(scn, i)):
                        changed.add(j)
                scribble(pool[i])
                st.probes['dictionaries changed after writing'] += 1
                settle(n, 'the caller')
                continue
            if what == 'reuse':
                # the caller fills a dictionary it has written before with the fields of another set of its type
                i = op['id']
                x = op['spec']
                if i >= len(pool) or pool[i] is None or i in changed or 'bad' in specs[i] or specs[i]['t'] != x['t']:
                    continue
                o = s.call(lambda: s.materialize(x), label='prepare')
                if not o.ok():
                    raise Abandon('prepare raises %s' % o.exc)
                d = o.value[0]
                for q in given[i][0]:
                    pool[i].pop(q, None)
                pool[i].update(d)
                specs[i] = x
                plain[i] = x
                given[i] = (cp.deepcopy(d), [(a, cp.deepcopy(a)) for a in arrays(d)])
                st.probes['dictionaries filled anew'] += 1
                settle(n, 'the caller')
                continue
            f = op['f']
            k = 'u%d' % f
            if k not in s.inst or what == 'new':
                o = s.open(k, FILES[f])
                if not o.ok():
                    raise Abandon('cannot be opened')
            if what == 'write':
                sel = [i for i in op['ids'] if i < len(pool) and pool[i] is not None and i not in changed]
                if not sel:
                    continue
                for i in sel:
                    x = specs[i]
                    st.types['58b' if gen.is_binary(x) else x['t']] += 1
                rejected = [j for j, i in enumerate(sel) if 'bad' in specs[i]]
                es = [Entry(plain[i]) for i in (sel[:rejected[0]] if rejected else sel)]
                ds = [pool[i] for i in sel]
                if len(set(sel)) < len(sel):
                    st.probes['calls with the same dictionary twice'] += 1
                was = s.w.get(FILES[f])
                o = s.write(k, ds if len(ds) > 1 else ds[0], op['mode'], force_double([plain[i] for i in sel]), op['faults'])
                if not o.ok() and op.get('fails') and o.fired:
                    # what the call has left in the file is a matter of C04; here it is put back
                    st.probes['failed writes'] += 1
                    settle(n, 'a failed write_sets')
                    if was is None:
                        s.w.drop(FILES[f])
                    else:
                        s.w.put(FILES[f], was)
                    if s.get(k, 'refresh').kind != 'ok':
                        raise Abandon('cannot be refreshed')
                    continue
                if rejected and not o.ok():
                    st.probes['rejected writes'] += 1
                    content[f] = (content[f] if op['mode'] == 'add' or not es else []) + es
                    settle(n, 'a rejected write_sets')
                    continue
                if rejected:
                    raise Abandon('a set is not rejected')
                if not o.ok():
                    self.bad('write', 'op %d: writing sets of types %s raises %s' % (n, [e.type for e in es], o.exc))
                content[f] = (content[f] if op['mode'] == 'add' else []) + es
                settle(n, 'write_sets')
            elif what == 'list':
                # what the get_ methods give, changed by the caller, and asked for again
                for again in range(1 + op['scribble']):
                    o = s.call(lambda: (s.inst[k].get_supported_sets(), s.inst[k].get_set_types(), s.inst[k].get_set_formats(),
                                        s.inst[k].get_n_sets(), s.inst[k].get_status()), label='lists %s' % k)
                    if not o.ok():
                        self.bad('list', 'op %d: asking for types and formats raises %s' % (n, o.exc))
                    st.judged += 1
                    es = content[f]
                    want = (supported, [e.type for e in es], [e.fmt for e in es], len(es))
                    got = (list(o.value[0]), [int(v) for v in o.value[1]], [int(v) for v in o.value[2]], int(o.value[3]))
                    if supported is None:
                        supported = got[0]
                    elif got != want:
                        self.bad('list', 'op %d: %s lists %s instead of %s'
                                 % (n, 'after the caller has changed the lists it got, the instance' if again else 'the instance', got, want))
                    if op['scribble']:
                        st.probes['lists of types changed by the caller'] += 1
                        scribble(list(o.value[:3]))
                        settle(n, 'changing a list of types')
                    else:
                        kept.append((o.value, cp.deepcopy(o.value)))
            elif what == 'read' and content[f]:
                es = content[f]
                j = int(op['x'] * len(es))
                sel = None if op['how'] == 'all' else list(range(j, len(es))) if op['how'] == 'list' else j
                if op['how'] == 'dup':
                    sel = [j, len(es) - 1, j, j]
                o = s.read(k, sel, op['how'] == 'head', op['faults'])
                if not o.ok():
                    self.bad('read', 'op %d: read_sets(%s) of %d sets raises %s' % (n, sel, len(es), o.exc))
                got = as_list(o.value)
                want = es if sel is None else [es[i] for i in sel] if isinstance(sel, list) else [es[j]]
                if len(got) != len(want):
                    self.bad('count', 'op %d: read_sets(%s) gives %d sets instead of %d' % (n, sel, len(got), len(want)))
                for g, e in zip(got, want):
                    st.judged += 1
                    c = e.canon
                    if op['how'] == 'head' and e.type == 58:
                        c = dict(c, x=None, data=None)
                    if not C.same(g, c):
                        self.bad('differ', 'op %d: a set of type %s differs: %s' % (n, e.type, C.where(g, c)))
                settle(n, 'read_sets')
                if op['how'] == 'dup' and op['scribble']:
                    # the results of one call, of the same set, are the caller's as well
                    c = cp.deepcopy(got[1:])
                    scribble(got[0])
                    st.judged += 1
                    if not C.same(got[1:], c):
                        self.bad('result', 'op %d: read_sets(%s): changing the first result changed another: %s'
                                 % (n, sel, C.where(got[1:], c)))
                if op['scribble']:
                    scribble(o.value)
                    settle(n, 'changing a result')
                else:
                    kept.append((o.value, cp.deepcopy(o.value)))


def root(scn, i):
    while 'share' in scn['sets'][i] and scn['sets'][i]['share'] < i:
        i = scn['sets'][i]['share']
    return i
