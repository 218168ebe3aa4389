"""Running pyuff inside the simulated world: loading it afresh, one operation at a time, with faults."""
import ast
import gc
import io
import os
import signal
import sys
import time
import types
import importlib.abc
import importlib.util
import itertools

from . import world as W
from . import gen
from . import compare as C

W.install()
import numpy as np      # noqa  (after install)
import warnings         # noqa
import tempfile         # noqa

REPO = os.environ.get('SIMUFF_REPO', '/repo')
TOOL = 3
_codes = {}
_all_codes = []


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves pyuff from the sources in the working tree, compiled once, never from a cache on disk."""

    def find_spec(self, name, path=None, target=None):
        if name in _codes:
            code, fn, pkg = _codes[name]
            return importlib.util.spec_from_file_location(name, fn, loader=self,
                                                          submodule_search_locations=[os.path.dirname(fn)] if pkg else None)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_codes[module.__name__][0], module.__dict__)


_idle = {}      # file -> lines at which memory cannot run out


def idle_lines(src):
    """The lines with nothing but assignments of constants and names and the like."""
    def plain(e):
        return e is None or isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, ast.Attribute) and plain(e.value) \
            or isinstance(e, (ast.List, ast.Tuple, ast.Dict)) and not getattr(e, 'elts', None) and not getattr(e, 'keys', None)
    idle, busy = set(), set()
    for n in ast.walk(ast.parse(src)):
        if not isinstance(n, ast.stmt):
            continue
        if isinstance(n, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Try, ast.FunctionDef, ast.ClassDef)) \
                or isinstance(n, (ast.Return, ast.Assign, ast.AnnAssign)) and plain(n.value):
            idle.add(n.lineno)
        else:
            busy.add(n.lineno)
    return idle - busy


def compile_repo():
    base = os.path.join(REPO, 'pyuff')
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, REPO)[:-3].replace('/', '.')
                pkg = mod.endswith('.__init__')
                with open(p, 'rb') as fh:
                    src = fh.read()
                code = compile(src, p, 'exec', dont_inherit=True)
                _idle[p] = idle_lines(src)
                _codes[mod[:-9] if pkg else mod] = (code, p, pkg)
                todo = [code]
                while todo:
                    c = todo.pop()
                    _all_codes.append(c)
                    todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))
    sys.meta_path.insert(0, _Finder())


def load(world=None, proc=None):
    """A fresh import of pyuff: no state of an earlier process survives."""
    if not _codes:
        compile_repo()
    for m in [m for m in sys.modules if m == 'pyuff' or m.startswith('pyuff.')]:
        del sys.modules[m]
    if world is None:
        import pyuff
    else:
        with W.Ctx(world, proc):
            import pyuff
    return pyuff


# ---- lines: step budget, faults and preemption at any line of pyuff --------------------------------
line_hook = None
_mon = False


def _on_line(code, line):
    h = line_hook
    if h is not None and W.ctx() is not None:
        h(code, line)


def enable_lines(instructions=False):
    global _mon
    m = sys.monitoring
    if not _mon:
        m.use_tool_id(TOOL, 'simuff')
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_line)
        _mon = True
    for c in _all_codes:
        if c.co_name != '<module>':
            m.set_local_events(TOOL, c, m.events.LINE | (m.events.INSTRUCTION if instructions else 0))


def disable_lines():
    if _mon:
        for c in _all_codes:
            sys.monitoring.set_local_events(TOOL, c, 0)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class Outcome:
    """How one operation ended."""
    __slots__ = ('kind', 'value', 'exc', 'leaks', 'touched', 'counts', 'fired', 'readings', 'lines')

    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return '%s %s' % (self.kind, C.short(self.value) if self.kind == 'ok' else self.exc)


class NotOpen(KeyError):
    """An instance is used whose construction failed."""

    def __init__(self, name, o):
        super().__init__(name)
        self.outcome = o


class Instances(dict):
    def __init__(self):
        self.failed = {}

    def __missing__(self, name):
        raise NotOpen(name, self.failed.get(name))


class Sim:
    """One simulated run."""

    def __init__(self, knobs=None, log=False):
        self.w = W.World(knobs)
        if log:
            self.w.log = []
        self.proc = self.w.new_proc()
        self.pyuff = load(self.w, self.proc)
        self.inst = Instances()
        self.ops = 0
        self.fired = {}
        self.budget = 0
        self.lines_used = 0
        self.states = set()
        tempfile._name_sequence = ('sim%06d' % i for i in itertools.count())
        tz = self.w.knobs.get('tz', 'UTC0')
        if os.environ.get('TZ') != tz:
            os.environ['TZ'] = tz
            time.tzset()

    def restart(self):
        """The process is gone and a new one starts: nothing but the disk remains."""
        self.proc.dead = True
        self.inst.clear()
        self.proc = self.w.new_proc()
        self.pyuff = load(self.w, self.proc)
        self.w.event('restart')

    def call(self, fn, faults=(), label='', proc=None, thread=0, fresh=True):
        """Runs fn() as code under test, with the faults planned for it."""
        global line_hook
        w = self.w
        proc = proc or self.proc
        o = Outcome()
        if fresh:
            w.begin(faults)
        self.ops += 1
        w.event('op', label)
        lf = [f for f in w.faults if f['sys'] == 'line']
        lim = self.budget
        old_hook = line_hook
        if lf or lim:
            box = [0]
            f0 = lf[0] if lf else None

            start = [0]

            def hook(code, line):
                box[0] += 1
                if f0 is not None and f0.get('after') and not w.counts.get(f0['after']):
                    start[0] += 1
                elif f0 is not None and box[0] - start[0] >= f0['nth'] and not f0.get('done') and \
                        (f0['kind'] == 'crash' or line not in _idle.get(code.co_filename, ())):
                    f0['done'] = True
                    w.fired['line:' + f0['kind']] = w.fired.get('line:' + f0['kind'], 0) + 1
                    w.event('line', '%s:%d !%s' % (os.path.basename(code.co_filename), line, f0['kind']))
                    if f0['kind'] == 'mem':
                        raise MemoryError()
                    if f0['kind'] == 'int':
                        raise KeyboardInterrupt()
                    proc.dead = True
                    raise W.SimCrash()
                if lim and box[0] > lim:
                    raise W.StepLimit()
            line_hook = hook
        before = len(W.bypass)
        try:
            with W.Ctx(w, proc, thread):
                o.value = fn()
            o.kind, o.exc = 'ok', None
            o.leaks = [h.path for h in w.open_handles(proc)]
        except W.HarnessError:
            raise
        except BaseException as e:
            o.leaks = [h.path for h in w.open_handles(proc)]
            o.kind, o.value = 'raise', None
            o.exc = '%s: %s' % (type(e).__name__, str(e)[:200])
            if isinstance(e, W.StepLimit):
                o.kind = 'hang'
            e.__traceback__ = None
            while e is not None:
                # frames kept alive by chained exceptions go with the exception
                e.__traceback__ = None
                e = e.__context__
        finally:
            line_hook = old_hook
        if lf or lim:
            o.lines = box[0]
            self.lines_used += box[0]
            if lim and box[0] > lim:
                o.kind = 'hang'
        else:
            o.lines = 0
        if proc.dead:
            o.kind = 'crash'
        if len(W.bypass) > before:
            raise W.HarnessError('the simulator was bypassed: %r' % W.bypass[before:])
        for h in w.open_handles(proc):
            h._done()
        o.counts = dict(w.counts)
        o.touched = {p: sorted(v) for p, v in w.touched.items()}
        o.readings = [list(x) for x in w.readings]
        o.fired = sorted('%s:%s' % (f['sys'], f['kind']) for f in w.faults if f.get('done'))
        if fresh:
            w.finish()
        w.event('end', '%s %s' % (o.kind, C.digest(o.value) if o.kind == 'ok' and isinstance(o.value, (dict, list)) else ''))
        self.states.add(C.digest([o.kind, sorted((p, len(d), hash_bytes(d)) for p, d in w.snapshot().items())]))
        return o

    # ---- what callers do ----
    def open(self, name, path, faults=()):
        self.inst.pop(name, None)
        how = self.w.knobs.get('call')
        o = self.call(lambda: self.pyuff.UFF(filename=path) if how == 'names' else self.pyuff.UFF(path), faults,
                      'open %s %s' % (name, path))
        if o.ok():
            self.inst[name] = o.value
        else:
            self.inst.failed[name] = o
        return o

    def materialize(self, spec, bad=False):
        if 'u' in spec:
            if 'like' in spec:
                # all the fields of another type
                return dict(self.materialize(spec['like'])[0], type=spec['u']), None
            return {'type': spec['u'], 'data': [1.0, 2.0], 'x': [0, 1]}, None
        if 'bad' in spec:
            return gen.make_bad(self.pyuff, spec), None
        return gen.materialize(self.pyuff, spec)

    def write(self, name, dsets, mode='add', fd=True, faults=()):
        u = self.inst[name]
        how = self.w.knobs.get('call')
        kw = {'force_double': fd}
        if how in ('upper', 'title') and mode in ('add', 'overwrite'):
            mode = mode.upper() if how == 'upper' else mode.title()
        if how == 'names':
            kw.update(dsets=dsets, mode=mode)
            args = ()
        elif how == 'order':
            args, kw = (dsets, mode, fd), {}
        elif how == 'short':
            args = (dsets,) if mode == 'add' else (dsets, mode)
            if fd:
                kw = {}
        else:
            args = (dsets, mode)
        return self.call(lambda: u.write_sets(*args, **kw), faults, 'write %s %s' % (name, mode))

    def read(self, name, n=None, header=False, faults=()):
        u = self.inst[name]
        how = self.w.knobs.get('call')
        return self.call(lambda: u.read_sets(setn=n, header_only=header) if how == 'names' else
                         u.read_sets(n, header) if how == 'order' else
                         u.read_sets(n, header_only=header) if header else
                         u.read_sets(n) if n is not None else u.read_sets(), faults, 'read %s %s' % (name, n))

    def get(self, name, what, faults=()):
        u = self.inst[name]
        fns = {'n': u.get_n_sets, 'types': lambda: [int(x) for x in u.get_set_types()],
               'formats': lambda: [int(x) for x in u.get_set_formats()], 'status': u.get_status,
               'exists': u.file_exists, 'refresh': u.refresh, 'name': u.get_file_name}
        return self.call(fns[what], faults, '%s %s' % (what, name))

    def end(self):
        self.w.ended = True
        for p in self.w.procs:
            p.dead = True
        self.inst.clear()


def hash_bytes(b):
    import zlib
    return zlib.crc32(b)


# ---- the reference: what a set is when it is written alone ------------------------------------------
_canon = {}
_canon_bytes = {}


class Unwritable(Exception):
    pass


def canonical(spec):
    """(set as read back when written alone to a fresh file, without faults; its bytes)."""
    key = repr(sorted(spec.items(), key=str))
    if key in _canon:
        v = _canon[key]
        if isinstance(v, Exception):
            raise v
        return v
    if 'u' in spec:
        # a set of an unsupported type reads as its number alone
        v = _canon[key] = ({'type': spec['u']}, gen.unsupported_text(spec))
        return v
    old = {m: sys.modules[m] for m in sys.modules if m == 'pyuff' or m.startswith('pyuff.')}
    try:
        s = Sim()
        try:
            o = s.call(lambda: gen.materialize(s.pyuff, spec))
            if not o.ok():
                raise Unwritable('%s: cannot be prepared: %s' % (spec, o.exc))
            d, b = o.value
            o = s.open('u', 'r.uff')
            if o.ok():
                o = s.write('u', d, 'overwrite', b.fd)
            if not o.ok():
                raise Unwritable('%s: cannot be written alone: %s' % (spec, o.exc))
            s.restart()
            o = s.open('u', 'r.uff')
            if o.ok():
                o = s.read('u', 0)
            if not o.ok() or not isinstance(o.value, dict):
                raise Unwritable('%s: cannot be read when written alone: %s' % (spec, o))
            v = _canon[key] = (o.value, s.w.get('r.uff'))
        except Unwritable as e:
            _canon[key] = e
            raise
        finally:
            s.end()
    finally:
        for m in [m for m in sys.modules if m == 'pyuff' or m.startswith('pyuff.')]:
            del sys.modules[m]
        sys.modules.update(old)
    return v


def forget():
    """Keeps the memory of a long search bounded (never within a run)."""
    if len(_canon) > 2000:
        _canon.clear()


def quiet():
    """No output of the code under test, no warnings, no collector at unforeseeable moments."""
    sys.stdout, sys.stderr = _Null(), _Null()
    gc.disable()
    load()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
