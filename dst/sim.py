"""The deterministic scheduler.

Real threads, one runnable at a time: a thread runs only while it holds the baton and gives it
back at a point the *plan* names.  Points are line (or bytecode) events of code under REPO/src and
of the deployment's own hooks, delivered by sys.monitoring, so every interleaving of source lines is
expressible, and the same plan on the same code gives the same execution.

A plan is a list of segments, each run by one thread until its stop condition or the end of the
thread's current operation:
    [tid, "end"]                    run the current operation to its end
    [tid, "step", n]                stop after n trace events of this operation in this segment
    [tid, "at", loc, n]             stop before the n-th visit of source line `loc`
    [tid, "after", loc, n]          stop at the event following the n-th visit of `loc`
Segments that never reach their stop end with the operation.  After the last segment all remaining
operations run to their end in thread order.

Faults are raised inside the traced code by the same trace function:
    {"tid", "opi", "kind": exception name, "call": n | "loc": [loc, n]}
at the first eligible function entry from the n-th on (see `eligible`), at the n-th visit of a source line
that calls something (a call into the interpreter's own functions may fail as well), and by the hooks seam.
"""
import ast
import dis
import gc
import os
import sys
import threading
import types
from _thread import allocate_lock, get_ident, start_new_thread

from . import seam
from .world import REPO, Hooks

SRC = os.path.join(os.path.realpath(REPO), "src") + os.sep
MAX_STEPS = 3_000_000


class SimCancelled(BaseException):
    """Cancellation of a request by the server that runs it (as KeyboardInterrupt or a greenlet
    kill would be): not an Exception."""


class SimTimeout(Exception):
    """A per-request deadline enforced by the application."""


FAULTS = {
    "MemoryError": MemoryError, "RecursionError": RecursionError, "SimCancelled": SimCancelled,
    "SimTimeout": SimTimeout, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError,
    "RuntimeError": RuntimeError, "KeyError": KeyError, "ValueError": ValueError,
    "TypeError": TypeError, "AttributeError": AttributeError, "IndexError": IndexError,
    "LookupError": LookupError, "ArithmeticError": ArithmeticError,
    "AssertionError": AssertionError, "UnicodeError": UnicodeError, "TimeoutError": TimeoutError,
    "NotImplementedError": NotImplementedError, "ConnectionError": ConnectionError,
}
# what can strike at any function entry, as opposed to what application hooks raise
ASYNC_FAULTS = ["MemoryError", "RecursionError", "SimCancelled", "SimTimeout", "KeyboardInterrupt"]
HOOK_FAULTS = [k for k in FAULTS]
FAULT_TEXT = "injected by the simulator"


class Deadlock(Exception):
    pass


# ------------------------------------------------------------------ source facts (never a verdict)
_MUTATORS = {
    "append", "extend", "add", "update", "pop", "clear", "setdefault", "insert", "remove",
    "discard", "popitem", "sort", "reverse", "appendleft", "popleft", "set", "reset",
    "__setitem__", "__setattr__", "cache_clear", "move_to_end", "put", "get_nowait",
}
_STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_GLOBAL",
           "DELETE_GLOBAL", "STORE_DEREF", "STORE_SLICE"}


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c, seen)


_guard_cache = {}


def guarded_lines(path):
    """Lines inside finally blocks and exception handlers: no fault is injected while one runs
    (code is not expected to survive a second failure inside its own clean-up)."""
    if path not in _guard_cache:
        lines = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                blocks = []
                if isinstance(node, ast.Try):
                    blocks = node.finalbody + [s for h in node.handlers for s in h.body]
                elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in (
                        "__exit__", "__del__", "__aexit__", "close"):
                    blocks = node.body
                for s in blocks:
                    lines.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _guard_cache[path] = lines
    return _guard_cache[path]


_hot_cache = {}


def hot_lines(code):
    """Source lines of a code object that store into an object or call a mutator."""
    if code not in _hot_cache:
        out = set()
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            if ins.opname in _STORES or (
                ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in _MUTATORS
            ):
                out.add(line)
        _hot_cache[code] = out
    return _hot_cache[code]


_call_cache = {}


def call_lines(code):
    """Source lines of a code object that call something."""
    if code not in _call_cache:
        out = set()
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            if ins.opname.startswith("CALL"):
                out.add(line)
        _call_cache[code] = out - guarded_lines(code.co_filename)
    return _call_cache[code]


_try_cache = {}


def try_lines(path):
    """Lines inside the body of a try statement with handlers (guidance for the search)."""
    if path not in _try_cache:
        lines = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try) and node.handlers:
                    for s in node.body:
                        lines.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _try_cache[path] = lines
    return _try_cache[path]


_target_cache = {}


def store_targets(path):
    """{line: [(root name, attribute names)]}: the objects a line stores into."""
    if path not in _target_cache:
        out = {}

        def chain(e):
            names = []
            while isinstance(e, ast.Attribute):
                names.append(e.attr)
                e = e.value
            return (e.id, names[::-1]) if isinstance(e, ast.Name) else None

        def note(node, e):
            c = chain(e)
            if c:
                for n in range(node.lineno, (node.end_lineno or node.lineno) + 1):
                    out.setdefault(n, []).append(c)

        def target(node, t):
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                note(node, t.value)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    target(node, x)
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, (ast.Assign, ast.Delete)):
                    for t in node.targets:
                        target(node, t)
                elif isinstance(node, (ast.AugAssign, ast.AnnAssign, ast.For)):
                    target(node, node.target)
                elif isinstance(node, ast.Global):
                    pass
                elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in _MUTATORS:
                    note(node, node.func.value)
                elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                        "setattr", "delattr") and node.args:
                    note(node, node.args[0])
        except (OSError, SyntaxError):
            pass
        _target_cache[path] = out
    return _target_cache[path]


def long_lived(roots):
    """Objects that outlive an operation: everything the deployment and the modules hold on to."""
    seen, todo = {}, list(roots)
    for name, mod in list(sys.modules.items()):
        if name == "src" or name.startswith("src."):
            todo.append(vars(mod))
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        t = type(v)
        if isinstance(v, type):
            if not getattr(v, "__module__", "").startswith("src"):
                continue
            todo.extend(vars(v).values())
        elif t in (dict, list, tuple, set) or t.__module__ in ("collections", "builtins") and isinstance(v, (dict, list, set)):
            todo.extend(v.values() if isinstance(v, dict) else v)
        elif t.__module__.startswith(("src", "dst")):
            todo.extend(getattr(v, "__dict__", {}).values())
            for k in t.__mro__:
                for n in getattr(k, "__slots__", ()) if not isinstance(getattr(k, "__slots__", ()), str) else ():
                    x = getattr(v, n, None)
                    if x is not None:
                        todo.append(x)
        else:
            continue
        seen[id(v)] = v
    return seen


class SharedStores:
    """Lines of an operation that store into something that outlives it (guidance for the search, never a verdict)."""

    def __init__(self):
        self.found = {}
        self.before = []                         # number of function entries before the store

    def run(self, job, lived):
        self.lived = lived
        self.calls = 0
        watch(line=self._on_line, start=self._on_start)
        try:
            job()
        except BaseException:  # noqa
            pass
        finally:
            unwatch()

    def _on_start(self, code, offset):
        self.calls += 1

    def _on_line(self, code, line):
        todo = store_targets(code.co_filename).get(line)
        if not todo:
            return
        fr = sys._getframe(1)
        if fr.f_code is not code:
            return
        for root, names in todo:
            v = fr.f_locals.get(root, self)
            if v is self:
                v = fr.f_globals.get(root, self)
            for n in names:
                v = getattr(v, "__dict__", {}).get(n, self) if not isinstance(v, type) else getattr(v, n, self)
            if v is not self and id(v) in self.lived:
                loc = name_of(code, line)
                self.found[loc] = self.found.get(loc, 0) + 1
                if len(self.before) < 60 or self.calls % 7 == 0 and len(self.before) < 400:
                    self.before.append(self.calls)


def name_of(code, line):
    return code.co_filename[len(SRC):] + ":%d" % line


# ------------------------------------------------------------------ event delivery
# sys.monitoring, switched on for the code objects of REPO/src before the threads of a run start
# and off after they ended: sys.settrace toggled per thread crashes CPython 3.12.
_MON = sys.monitoring
_TOOL = 4
_all_codes = None


def src_codes():
    global _all_codes
    if _all_codes is None:
        seen = set()
        for f in gc.get_objects():
            if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(SRC):
                for _ in _codes(f.__code__, seen):
                    pass
        # gc.freeze()d objects are not listed: walk the modules as well
        for name, mod in list(sys.modules.items()):
            if name == "src" or name.startswith("src."):
                for v in list(vars(mod).values()):
                    _walk(v, seen, set())
        _all_codes = sorted((c for c in seen if c.co_filename.startswith(SRC)),
                            key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return _all_codes


def _walk(v, seen, done):
    if id(v) in done:
        return
    done.add(id(v))
    if isinstance(v, (classmethod, staticmethod)):
        v = v.__func__
    if isinstance(v, property):
        for g in (v.fget, v.fset, v.fdel):
            if g is not None:
                _walk(g, seen, done)
        return
    w = getattr(v, "__wrapped__", None)
    if w is not None and callable(w):
        _walk(w, seen, done)
    if isinstance(v, types.FunctionType):
        for _ in _codes(v.__code__, seen):
            pass
        for c in v.__closure__ or ():
            try:
                x = c.cell_contents
            except ValueError:
                continue
            if isinstance(x, (types.FunctionType, type)):
                _walk(x, seen, done)
    elif isinstance(v, type):
        if getattr(v, "__module__", "").startswith("src"):
            for x in list(vars(v).values()):
                _walk(x, seen, done)
    elif isinstance(v, (list, tuple)):
        for x in v:
            if callable(x):
                _walk(x, seen, done)


def warm():
    """In the zygote: facts about the source that every child would otherwise work out again."""
    for c in src_codes():
        hot_lines(c)
        call_lines(c)
        try_lines(c.co_filename)
        store_targets(c.co_filename)
        _guards[c] = _guard_of(c)


def watch(line=None, start=None, instruction=None):
    ev = _MON.events
    mask = 0
    if _MON.get_tool(_TOOL) is None:
        _MON.use_tool_id(_TOOL, "dst")
    for e, cb in ((ev.LINE, line), (ev.PY_START, start), (ev.PY_RESUME, start),
                  (ev.INSTRUCTION, instruction)):
        if cb is not None:
            mask |= e
        _MON.register_callback(_TOOL, e, cb)
    if mask:
        for c in src_codes():
            _MON.set_local_events(_TOOL, c, mask)


def unwatch():
    if _MON.get_tool(_TOOL) is None:
        return
    for c in src_codes():
        _MON.set_local_events(_TOOL, c, 0)
    for e in (_MON.events.LINE, _MON.events.PY_START, _MON.events.PY_RESUME,
              _MON.events.INSTRUCTION):
        _MON.register_callback(_TOOL, e, None)


_guards = {}


def _guard_of(code):
    fn = code.co_filename
    if not fn.startswith(SRC):
        return None
    g = guarded_lines(fn)
    own = {line for _, _, line in code.co_lines() if line}
    return (g & own) or None


def eligible(frame):
    f = frame.f_back
    while f is not None:
        c = f.f_code
        try:
            g = _guards[c]
        except KeyError:
            g = _guards[c] = _guard_of(c)
        if g is not None and f.f_lineno in g:
            return False
        f = f.f_back
    return True


# ------------------------------------------------------------------ cooperative locks
class CoLock:
    """Stands in for threading.Lock in the code under test, so that waiting is a scheduling
    decision and a deadlock is a finding instead of a hang."""

    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        while self._owner is not None:
            if not blocking:
                return False
            sim = Sim.current
            if sim is None or not sim.block(self, timeout):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock never released")
        self._owner = get_ident()
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoRLock:
    def __init__(self):
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        while self._owner is not None and self._owner != me:
            if not blocking:
                return False
            sim = Sim.current
            if sim is None or not sim.block(self, timeout):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock never released")
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None

    def _is_owned(self):
        return self._owner == get_ident()

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """Called once, before the code under test is imported."""
    import functools
    threading.Lock = CoLock
    threading.RLock = CoRLock
    functools.RLock = CoRLock


# ------------------------------------------------------------------ one simulated run
class _T:
    __slots__ = ("tid", "jobs", "opi", "lock", "busy", "stop", "steps", "visits", "pending",
                 "blocked", "calls", "fault", "fault_fired", "fault_at", "fault_visits", "total", "hook_calls",
                 "where", "ident")

    def __init__(self, tid, jobs):
        self.tid, self.jobs = tid, jobs
        self.opi = -1
        self.lock = allocate_lock()
        self.lock.acquire()
        self.busy = False
        self.stop = None
        self.steps = 0
        self.visits = 0
        self.pending = False
        self.blocked = None
        self.calls = 0
        self.fault = None
        self.fault_fired = False
        self.fault_at = None
        self.fault_visits = 0
        self.total = 0
        self.hook_calls = 0
        self.ident = None
        self.where = None


class Sim:
    """jobs: per thread a list of callables `job() -> outcome`; results come back in `self.out`."""

    current = None

    def __init__(self, jobs, plan=(), faults=(), opcodes=False, finish=None, nested=None):
        self.threads = [_T(i, list(js)) for i, js in enumerate(jobs)]
        self.plan = [list(s) for s in plan]
        self.faults = {}
        for f in faults:
            self.faults[f["tid"], f["opi"]] = f
        self.opcodes = opcodes
        self.main = allocate_lock()
        self.main.acquire()
        self.out = [[None] * len(js) for js in jobs]
        self.fired = []
        self.trail = []          # (tid, what) of every baton hand-over: the interleaving
        self.switches = 0
        self.deadlock = False
        self.overrun = False
        self.finish = finish or (lambda tid, opi, res: res)
        self.active = None
        self.nested = []
        self.finish_nested = nested

    # ---- running
    def run(self):
        Sim.current = self
        Hooks.on_call = self._hook
        lines = any(seg[1] in ("step", "at", "after") for seg in self.plan)
        calls = any("call" in f for f in self.faults.values())
        at = any("loc" in f for f in self.faults.values())
        watch(line=self._on_line if lines or calls or at else None,
              start=self._on_start if calls else None,
              instruction=self._on_instruction if self.opcodes and lines else None)
        for t in self.threads:
            start_new_thread(self._body, (t,))
        try:
            for seg in self.plan:
                self._segment(self.threads[seg[0] % len(self.threads)], seg)
            for t in self.threads:
                while t.opi < len(t.jobs) - 1 or t.busy:
                    if not self._segment(t, [t.tid, "end"]):
                        break
            # whoever is still blocked gets another chance once the others are through
            again = True
            while again:
                again = False
                for t in self.threads:
                    if t.busy or t.opi < len(t.jobs) - 1:
                        if self._segment(t, [t.tid, "end"]):
                            again = True
            if any(t.busy for t in self.threads):
                self.deadlock = True
        finally:
            unwatch()
            Hooks.on_call = None
            Sim.current = None
        return self

    def _segment(self, t, seg):
        """Returns False if the thread could not make progress."""
        if seg[1] == "jump":
            seam.jump(seg[2])
            self.trail.append((t.tid, -1, "clock"))
            return True
        if t.blocked is not None and t.blocked._owner is not None:
            return False
        t.blocked = None
        if not t.busy and t.opi >= len(t.jobs) - 1:
            return False
        t.stop = None if seg[1] == "end" else seg[1:]
        if seg[1] in ("at", "after"):
            name, _, line = seg[2].rpartition(":")
            t.where = (SRC + name, int(line))
        t.steps = 0
        t.visits = 0
        t.pending = False
        self.trail.append((t.tid, t.opi if t.busy else t.opi + 1, "go"))
        self.active = t
        t.lock.release()
        self.main.acquire()
        self.active = None
        return True

    def _body(self, t):
        t.ident = get_ident()
        t.lock.acquire()
        while t.opi < len(t.jobs) - 1:
            t.opi += 1
            t.busy = True
            t.calls = t.hook_calls = 0
            t.fault = self.faults.get((t.tid, t.opi))
            t.fault_fired = False
            t.fault_at = None
            if t.fault and "loc" in t.fault:
                name, _, line = t.fault["loc"][0].rpartition(":")
                t.fault_at = (SRC + name, int(line))
                t.fault_visits = 0
            try:
                res = ("ok", t.jobs[t.opi]())
            except BaseException as e:  # noqa: whatever a request raises is its outcome
                res = ("raised", e)
            t.fault = None
            t.stop = None
            self.out[t.tid][t.opi] = self.finish(t.tid, t.opi, res)
            t.busy = False
            self._back(t, "done")
        # thread ends with the baton already returned

    def _back(self, t, why):
        self.trail.append((t.tid, t.opi, why))
        self.main.release()
        if t.opi < len(t.jobs) - 1 or t.busy:
            t.lock.acquire()

    def _park(self, t, why):
        self.switches += 1
        self.trail.append((t.tid, t.opi, why))
        self.main.release()
        t.lock.acquire()

    def block(self, lock, timeout):
        """Called by a cooperative lock in the running thread."""
        t = self.active
        if t is None:
            return False
        others = [o for o in self.threads if o is not t and (o.busy or o.opi < len(o.jobs) - 1)
                  and not (o.blocked is not None and o.blocked._owner is not None)]
        if not others:
            self.deadlock = True
            return False
        t.blocked = lock
        self.switches += 1
        self.trail.append((t.tid, t.opi, "blocked"))
        self.main.release()
        t.lock.acquire()
        return True

    # ---- events of the code under test
    def _on_start(self, code, offset):
        t = self.active
        if t is None:
            return
        f = t.fault
        if f is not None and not t.fault_fired and "call" in f and get_ident() == t.ident:
            if t.calls >= f["call"] and eligible(sys._getframe(1)):
                t.fault_fired = True
                self.fired.append([f["kind"], code.co_filename[len(SRC):] + ":" + code.co_qualname])
                raise FAULTS[f["kind"]](FAULT_TEXT)
            t.calls += 1

    def _on_line(self, code, line):
        t = self.active
        if t is None or t.ident != get_ident():
            return
        t.total += 1
        if t.total > MAX_STEPS:
            self.overrun = True
            raise SystemExit("step limit")
        at = t.fault_at
        if at is not None and line == at[1] and code.co_filename == at[0] and not t.fault_fired:
            t.fault_visits += 1
            if t.fault_visits >= t.fault["loc"][1] and eligible(sys._getframe(1)):
                t.fault_fired = True
                self.fired.append([t.fault["kind"], name_of(code, line)])
                raise FAULTS[t.fault["kind"]](FAULT_TEXT)
        stop = t.stop
        if stop is None:
            return
        kind = stop[0]
        if kind == "step":
            t.steps += 1
            if t.steps >= stop[1]:
                self._park(t, name_of(code, line))
        elif kind == "hook":
            return
        elif t.pending:
            t.pending = False
            self._park(t, "after " + stop[1])
        elif line == t.where[1] and code.co_filename == t.where[0]:
            t.visits += 1
            if t.visits >= stop[2]:
                if kind == "after":
                    t.pending = True
                    t.visits = 0
                else:
                    self._park(t, name_of(code, line))

    def _on_instruction(self, code, offset):
        t = self.active
        if t is None or t.stop is None or t.ident != get_ident():
            return
        if t.pending:
            t.pending = False
            self._park(t, "after %s +%d" % (t.stop[1], offset))
        elif t.stop[0] == "step":
            t.steps += 1
            if t.steps >= t.stop[1]:
                self._park(t, "%s+%d" % (code.co_filename[len(SRC):], offset))

    # ---- hooks seam
    def _hook(self, name):
        t = self.active
        if t is None:
            return
        n = t.hook_calls
        t.hook_calls += 1
        f = t.fault
        if f is not None and not t.fault_fired and f.get("hook") == n:
            t.fault_fired = True
            self.fired.append([f["kind"], "hook " + name])
            if "op" in f:                    # the hook itself uses the library
                fault, stop, t.fault, t.stop = t.fault, t.stop, None, None
                n = t.hook_calls
                try:
                    self.nested.append((t.tid, t.opi, self.finish_nested(f["op"])))
                finally:
                    t.fault, t.stop, t.hook_calls = fault, stop, n
                return
            raise FAULTS[f["kind"]](FAULT_TEXT)
        if t.stop is not None and t.stop[0] == "hook":
            t.steps += 1
            if t.steps >= t.stop[1]:
                self._park(t, "hook " + name)


# ------------------------------------------------------------------ profile of one operation
class Profile:
    """Lines, hot lines, eligible calls and hook calls of one operation run alone."""

    def __init__(self):
        self.raw = {}
        self.by_code = {}
        self.lines = {}
        self.hot = {}
        self.calls = 0
        self.hooks = 0
        self.steps = 0

    def run(self, job):
        Hooks.on_call = self._hook
        watch(line=self._on_line, start=self._on_start)
        try:
            res = job()
        finally:
            unwatch()
            Hooks.on_call = None
        return res

    def _hook(self, name):
        self.hooks += 1

    def _on_start(self, code, offset):
        try:
            self.by_code[code].append(self.calls)
        except KeyError:
            self.by_code[code] = [self.calls]
        self.calls += 1

    def _on_line(self, code, line):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise SystemExit("step limit")
        k = (code, line)
        try:
            self.raw[k] += 1
        except KeyError:
            self.raw[k] = 1

    def data(self):
        for (code, line), n in self.raw.items():
            loc = name_of(code, line)
            self.lines[loc] = self.lines.get(loc, 0) + n
            if line in hot_lines(code):
                self.hot[loc] = self.hot.get(loc, 0) + n
        calls = {}
        for code, v in self.by_code.items():
            calls[code.co_filename[len(SRC):] + ":" + code.co_qualname] = (
                v if len(v) <= 8 else v[:4] + v[-4:])
        at, tried = {}, []
        for (code, line), n in self.raw.items():
            if line in call_lines(code):
                loc = name_of(code, line)
                at[loc] = at.get(loc, 0) + n
                if line in try_lines(code.co_filename):
                    tried.append(loc)
        return {"lines": self.lines, "hot": self.hot, "calls": self.calls, "call_locs": calls,
                "call_lines": at, "tried": sorted(set(tried)),
                "hooks": self.hooks, "steps": self.steps}
