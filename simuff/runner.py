"""Command line: run a check, replay a violation, prove determinism."""
import argparse
import gc
import json
import hashlib
import os
import pickle
import random
import resource
import signal
import struct
import subprocess
import sys
import time
import copy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.fdopen(os.dup(1), 'w', buffering=1)


def say(*a):
    OUT.write(' '.join(str(x) for x in a) + '\n')
    OUT.flush()


def listed_findings():
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('finding: property='):
                    p, i, what = line[len('finding: property='):].rstrip('\n').split(' ', 2)
                    out.setdefault(p, {})[i[3:] if i.startswith('id=') else i] = what
    except FileNotFoundError:
        pass
    return out


def scenario(check, seed, i, tier):
    return check.gen(random.Random('%s/%s/%d' % (seed, check.id, i)), tier)


# ---- workers ---------------------------------------------------------------------------------------------
def worker(check, seed, tier, idx, deadline, wfd, cur, only=None):
    """Runs the given indices; sends ('done', stats, found, next index)."""
    from . import base, sim
    sim.quiet()
    if check.lines:
        sim.enable_lines(check.lines > 1)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    st = base.Stats()
    found = None
    samples = []

    def send(msg):
        b = pickle.dumps(msg)
        b = struct.pack('>Q', len(b)) + b
        while b:
            b = b[os.write(wfd, b):]

    state = {'i': None}

    def on_cpu(sig, frame):
        send(('hang', state['i']))
        os._exit(0)

    def on_real(sig, frame):
        import faulthandler, traceback
        send(('stall', state['i'], ''.join(traceback.format_stack(frame))))
        os._exit(0)
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_real)
    logs = {}
    done = 0
    for i in idx:
        done += 1
        if done % 200 == 0:
            gc.collect()
            sim.forget()
        if time.time() > deadline:
            break
        state['i'] = i
        signal.setitimer(signal.ITIMER_VIRTUAL, 40)
        signal.setitimer(signal.ITIMER_REAL, 300)
        try:
            scn = scenario(check, seed, i, tier)
            v, _ = check.run(scn, st)
        except BaseException as e:      # noqa
            import traceback
            send(('error', i, traceback.format_exc()))
            os._exit(0)
        if only is not None:
            logs[i] = (st.last_crc, v.cls if v else None)
        if i < 3:
            samples.append(scn)
        if v:
            found = (i, v.cls, v.msg)
            if only is None:
                break
            found = None
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)
    send(('done', st, found, samples, logs))
    os._exit(0)


def fork_workers(check, seed, tier, runs, jobs, cap, only=None):
    deadline = time.time() + cap
    kids = []
    for w in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                worker(check, seed, tier, range(w, runs, jobs), deadline, wfd, None, only)
            finally:
                os._exit(3)
        os.close(wfd)
        kids.append((pid, rfd))
    out = []
    for pid, rfd in kids:
        buf = b''
        while True:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            buf += b
        os.close(rfd)
        os.waitpid(pid, 0)
        if len(buf) < 8 or len(buf) - 8 != struct.unpack('>Q', buf[:8])[0]:
            out.append(('died', pid))
        else:
            out.append(pickle.loads(buf[8:]))
    return out


def in_child(fn, cpu=0, wall=0):
    """fn() in a forked child: ('ok', result), or ('hang'|'died', None)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            from . import sim
            sim.quiet()
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            if cpu:
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            if wall:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(wall)
            try:
                r = ('ok', fn())
            except BaseException:       # noqa
                import traceback
                r = ('error', traceback.format_exc())
            b = pickle.dumps(r)
            while b:
                b = b[os.write(wfd, b):]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    while True:
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        buf += b
    os.close(rfd)
    os.waitpid(pid, 0)
    if not buf:
        return 'died', None
    return pickle.loads(buf)


BUDGET = 5_000_000


def run_once(check, scn, budget=False, log=None):
    from . import sim
    if check.lines or budget:
        sim.enable_lines(check.lines > 1)
    scn = copy.deepcopy(scn)
    if budget:
        scn['budget'] = BUDGET
        old = sim.Sim.__init__

        def init(self, *a, **k):
            old(self, *a, **k)
            self.budget = BUDGET
        sim.Sim.__init__ = init
    try:
        v, st = check.run(scn, log=log)
    finally:
        if budget:
            sim.Sim.__init__ = old
    if budget and v is None:
        pass
    return (v.cls, v.msg) if v else None, st.last_crc


# ---- minimising --------------------------------------------------------------------------------------------
def minimise(check, scn, cls, seconds=75):
    """Smaller scenarios that fail the same way, as long as time allows."""
    t_end = time.time() + seconds
    budget = cls == 'hang'
    tries = [0]

    def fails(s):
        if time.time() > t_end:
            return False
        tries[0] += 1
        try:
            v, _ = run_once(check, s, budget)
        except BaseException:       # noqa
            return False
        return v is not None and v[0] == cls

    def ddmin(lst, rebuild):
        n = 2
        while lst and time.time() < t_end:
            size = max(1, len(lst) // n)
            for k in range(0, len(lst), size):
                cand = lst[:k] + lst[k + size:]
                if fails(rebuild(cand)):
                    lst = cand
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(lst), n * 2)
        return lst

    def with_(key, val, base):
        s = copy.deepcopy(base)
        s[key] = val
        return s
    cur = copy.deepcopy(scn)
    for rounds in range(4):
        before = json.dumps(cur, sort_keys=True)
        for key in check.lists:
            if cur.get(key):
                cur[key] = ddmin(list(cur[key]), lambda c: with_(key, c, cur))
        for key in check.lists:
            for i in range(len(cur.get(key) or [])):
                if not isinstance(cur[key][i], dict):
                    continue
                for sub in ('faults', 'sets', 'ops', 'blocks', 'n'):
                    if isinstance(cur[key][i].get(sub), list) and cur[key][i][sub]:
                        def rb(c):
                            s = copy.deepcopy(cur)
                            s[key][i][sub] = c
                            return s
                        cur[key][i][sub] = ddmin(list(cur[key][i][sub]), rb)
        for k in list(cur.get('knobs', {})):
            s = copy.deepcopy(cur)
            del s['knobs'][k]
            if fails(s):
                cur = s
        # specs
        def specs(o, path=()):
            if isinstance(o, dict):
                if 't' in o and 's' in o and 'n' in o:
                    yield path
                for k in o:
                    yield from specs(o[k], path + (k,))
            elif isinstance(o, list):
                for k, x in enumerate(o):
                    yield from specs(x, path + (k,))

        def at(o, path):
            for k in path:
                o = o[k]
            return o
        for path in list(specs(cur)):
            for n in (0, 1, 2, 3, 5):
                sp = at(cur, path)
                if n < sp['n']:
                    s = copy.deepcopy(cur)
                    at(s, path)['n'] = n
                    if fails(s):
                        cur = s
                        break
            for k in list(at(cur, path).get('o', {})):
                s = copy.deepcopy(cur)
                at(s, path)['o'].pop(k, None)
                if fails(s):
                    cur = s
            if at(cur, path)['s'] > 9:
                for x in (1, 2, 3):
                    s = copy.deepcopy(cur)
                    at(s, path)['s'] = x
                    if fails(s):
                        cur = s
                        break
        if json.dumps(cur, sort_keys=True) == before or time.time() > t_end:
            break
    return cur, tries[0]


# ---- commands ------------------------------------------------------------------------------------------------
def report(check, scn, cls, msg, seed, i, tier):
    kind, res = in_child(lambda: check.concrete(scn))
    scn = res if kind == 'ok' else scn
    kind, res = in_child(lambda: minimise(check, scn, cls))
    small, tries = res if kind == 'ok' else (scn, 0)

    def again(s):
        log = []
        v, crc = run_once(check, s, cls == 'hang', log)
        return v, crc, log
    kind, res = in_child(lambda: again(small))
    if kind != 'ok' or not res[0] or res[0][0] != cls:
        small = scn
        kind, res = in_child(lambda: again(small))
    if kind == 'ok' and res[0]:
        cls, msg = res[0]
        crc, log = res[1], res[2]
    else:
        crc, log = None, []
    rec = {'property': check.id, 'class': cls, 'message': msg, 'seed': seed, 'run': i, 'tier': tier, 'log_crc': crc,
           'minimise_tries': tries, 'scenario': small, 'events': [list(x) for x in log[-400:]]}
    name = '%s-%s.json' % (check.id, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10])
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1)
    say('run %d of seed %s: %s: %s' % (i, seed, cls, msg))
    say('VIOLATION property=%s replay=%s' % (check.id, p))


def cmd_check(check, tier, seed, jobs, runs, cap):
    t0 = time.time()
    listed = listed_findings().get(check.id, {})
    check.listed = set(listed)
    from . import sim
    sim.compile_repo() if not sim._codes else None
    code = 0
    nknown = 0
    kind, res = in_child(lambda: check.probes(listed), wall=200)
    if kind != 'ok':
        say('HARNESS-ERROR: probes of %s: %s %s' % (check.id, kind, res))
        return 2
    for fid, what, scn in res:
        if fid in listed:
            nknown += 1
            say('KNOWN-FINDING: property=%s %s' % (check.id, listed[fid]))
        else:
            report(check, scn, fid, what, seed, -1, tier)
            code = 1
    runs = runs or (check.quick if tier == 'quick' else check.thorough)
    cap = cap or (200 if tier == 'quick' else 3000)
    from . import base
    st = base.Stats()
    best, samples, errors, hang = None, [], [], None
    for m in fork_workers(check, seed, tier, runs, jobs, cap):
        if m[0] == 'done':
            st.merge(m[1])
            samples += m[3]
            if m[2] and (best is None or m[2][0] < best[0]):
                best = m[2]
        elif m[0] == 'hang':
            hang = m[1] if hang is None else min(hang, m[1])
        else:
            errors.append(m)
    nviol = 0
    if hang is not None and (best is None or hang < best[0]):
        scn = scenario(check, seed, hang, tier)
        kind, res = in_child(lambda: run_once(check, scn, True), cpu=300)
        if kind == 'ok' and res[0]:
            best = (hang, res[0][0], res[0][1])
        else:
            errors.append(('hang', hang, 'run %d used too much processor time, but: %s %s' % (hang, kind, res)))
    if best:
        i, cls, msg = best
        report(check, scenario(check, seed, i, tier), cls, msg, seed, i, tier)
        code = 1
        nviol = 1
    wall = time.time() - t0
    ev = evidence(check, tier, seed, st, samples, wall, nviol, nknown, jobs)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for e in errors:
        say('HARNESS-ERROR:', *e)
    if errors and code == 0:
        code = 2
    if st.runs and st.abandoned > st.runs * 0.9 and code == 0:
        say('HARNESS-ERROR: %d of %d runs could not be judged: %s' % (st.abandoned, st.runs, st.why.most_common(3)))
        code = 2
    say('%s %s seed=%s: %d runs (%d judged, %d abandoned), %d operations, %d system calls, %d faults, %d states, %.1f s'
        % (check.id, tier, seed, st.runs, len(st.nontrivial), st.abandoned, st.ops, st.syscalls, sum(st.fired.values()),
           len(st.states), wall))
    return code


REAL_PARTS = ['pyuff.UFF and all of pyuff/ (compiled from the working tree)', 'numpy', 'io.Buffered*/TextIOWrapper', 'libc time zones']
STUB_PARTS = ['disk and file system calls (in memory)', 'default text encoding and line ends of the platform', 'wall clock', 'process crash/restart', 'choice of the running thread',
              'stdout (discarded)', 'other programs on the same files (C19-C21: foreign.py, an independent reader and writer)']


def evidence(check, tier, seed, st, samples, wall, nviol, nknown, jobs):
    cov = {
        'evaluations': st.runs,
        'distinct_nontrivial': len(st.nontrivial),
        'rule': check.rule + ' A run is non-trivial if at least one result was compared with the reference model; distinct '
                'means a distinct log of operations, system calls, faults and results.',
        'samples': samples[:3],
        'abandoned_runs': st.abandoned,
        'abandoned_why': dict(st.why.most_common(8)),
        'results_compared': st.judged,
        'operations': st.ops,
        'system_calls': st.syscalls,
        'lines_of_pyuff_stepped': st.lines,
        'simulated_seconds': round(st.simtime, 3),
        'runs_per_hour': int(st.runs / wall * 3600) if wall else 0,
        'seeds_per_hour': int(st.runs / wall * 3600) if wall else 0,
        'seeds': 'run i uses the seed "%s/%s/i", i = 0..%d' % (seed, check.id, max(0, st.runs - 1)),
        'faults_injected': dict(sorted(st.fired.items())),
        'distinct_states': len(st.states),
        'distinct_states_measure': 'outcome of an operation and content of all files after it',
        'distinct_interleavings': len(st.orders),
        'distinct_event_logs': len(st.logs),
        'rare_conditions_reached': dict(sorted(st.probes.items())),
        'data_set_types': dict(sorted(st.types.items())),
        'known_findings_hit': dict(st.known),
        'real_components': REAL_PARTS,
        'stub_components': STUB_PARTS,
        'workers': jobs,
    }
    return {'property': check.id, 'tier': tier, 'seed': int(seed), 'level': check.level, 'coverage': cov,
            'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}


def cmd_replay(path):
    from . import checks
    with open(path) as f:
        rec = json.load(f)
    check = checks.get(rec['property'])
    check.listed = set(listed_findings().get(check.id, {}))
    from . import sim
    sim.compile_repo()

    def go():
        log = []
        v, crc = run_once(check, rec['scenario'], rec['class'] == 'hang', log)
        return v, crc, log
    kind, res = in_child(go, cpu=600)
    if kind != 'ok':
        say('HARNESS-ERROR:', kind, res)
        return 2
    v, crc, log = res
    for x in log:
        say('%5d thread %2d  %-8s %s' % tuple(x))
    if not v:
        say('not reproduced')
        return 0
    say('%s: %s' % v)
    say('same class: %s, same event log: %s' % (v[0] == rec['class'], crc == rec['log_crc']))
    say('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1


def cmd_digest(check, tier, seed, jobs, runs):
    """run index, event log checksum, verdict - to compare between executions."""
    from . import sim
    sim.compile_repo()
    check.listed = set(listed_findings().get(check.id, {}))
    logs = {}
    for m in fork_workers(check, seed, tier, runs, jobs, 3000, only=True):
        if m[0] != 'done':
            say('HARNESS-ERROR:', *m)
            return 2
        logs.update(m[4])
    for i in sorted(logs):
        say(i, *logs[i])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--cap', type=float, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('--setup', action='store_true', help='is everything there that the checks need?')
    a = ap.parse_args()
    if a.setup:
        from . import sim, checks
        sim.compile_repo()
        sim.load()
        say('ready: Python %s, numpy %s, %d checks' % (sys.version.split()[0], sim.np.__version__, len(checks.all_checks())))
        return 0
    if a.replay:
        return cmd_replay(a.replay)
    from . import checks
    check = checks.get(a.check)
    if a.digest:
        return cmd_digest(check, a.tier, a.seed, a.jobs, a.runs or 200)
    return cmd_check(check, a.tier, int(a.seed), a.jobs, a.runs, a.cap)


if __name__ == '__main__':
    sys.exit(main())
