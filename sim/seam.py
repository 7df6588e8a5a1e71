"""The execution seam: every executed line of the system under test is a scheduling and
fault point that the simulator owns.

``sys.monitoring`` delivers a LINE event (optionally an INSTRUCTION event) for all code of
the system under test, and for nothing else. At such an event the simulator may

- raise a fault (interrupt, failing allocation) into the running operation, or
- park the running simulated thread and let another one run.

Simulated threads are real threads, of which exactly one is released at any time; who
runs next is decided here. Locks are replaced by cooperative ones (see ``SimLock``), so
that a parked thread holding a lock never blocks the process.
"""

import _thread
import ast
import builtins
import gc
import os
import sys
import threading
import types
import weakref

REAL_ALLOCATE = _thread.allocate_lock
TOOL = 4
MON = sys.monitoring

_codes = None


def package_dir():
    import portfolyo

    return os.path.dirname(os.path.abspath(portfolyo.__file__)) + os.sep


def all_code():
    """All code objects of the system under test."""
    global _codes
    if _codes is not None:
        return _codes
    root = package_dir()
    seen, stack = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            stack.append(o.__code__)
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType):
                    stack.append(v.__code__)
        elif isinstance(o, property):
            for f in (o.fget, o.fset):
                if isinstance(f, types.FunctionType):
                    stack.append(f.__code__)
        elif isinstance(o, types.CodeType):
            stack.append(o)
    codes = []
    while stack:
        c = stack.pop()
        if c in seen or not c.co_filename.startswith(root):
            continue
        seen.add(c)
        codes.append(c)
        stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    codes.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    _codes = [c for c in codes if c.co_name != "<module>"]
    return _codes


def short(code):
    return code.co_filename[len(package_dir()) :]


# ------------------------------------------------------- where faults may not be raised
#
# A fault raised between acquiring something and the ``try`` that releases it, or inside
# the code that cleans up, would blame correct code. So: none on the header of a ``try``
# or ``with``, on the statement right before a ``try`` with cleanup, in ``except`` or
# ``finally`` bodies, and in ``__exit__``/``__del__``/``__enter__``.


def forbidden_lines(filename, _cache={}):
    if filename in _cache:
        return _cache[filename]
    lines = set()
    try:
        tree = ast.parse(open(filename).read())
    except (OSError, SyntaxError):
        tree = ast.Module(body=[], type_ignores=[])

    def span(n):
        return range(n.lineno, (n.end_lineno or n.lineno) + 1)

    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            lines.add(node.lineno)
            for part in (node.handlers, node.finalbody):
                for n in part:
                    lines.update(span(n))
        elif isinstance(node, ast.With):
            body = node.body[0].lineno
            lines.update(range(node.lineno, max(body, node.lineno + 1)))
        elif isinstance(node, (ast.FunctionDef,)):
            if node.name in ("__exit__", "__del__", "__enter__", "__aexit__"):
                lines.update(span(node))
            if any(
                isinstance(d, (ast.Name, ast.Attribute, ast.Call))
                and "contextmanager" in ast.dump(d)
                for d in node.decorator_list
            ):
                lines.update(span(node))
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list):
                continue
            for a, b in zip(stmts, stmts[1:]):
                if isinstance(b, ast.Try) and (b.finalbody or b.handlers):
                    if b.finalbody or any(
                        h.type is None or "BaseException" in ast.dump(h.type)
                        for h in b.handlers
                    ):
                        lines.update(span(a))
    _cache[filename] = lines
    return lines


MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard",
    "popitem", "sort", "reverse", "acquire", "release", "__setitem__", "move_to_end",
}


LOCAL, PASSED, SHARED = 0, 1, 2  # what a line stores into


def writing_lines(filename, _cache={}):
    """Lines that (may) store something where others can see it, and where that is: in an
    object that the function made, in one it was given, or in one that outlives it (variable
    of the module, attribute of a function or class, closure; taking of a lock). Only used to
    choose instants with a higher probability."""
    if filename in _cache:
        return _cache[filename]
    lines = {}
    try:
        tree = ast.parse(open(filename).read())
    except (OSError, SyntaxError):
        tree = ast.Module(body=[], type_ignores=[])

    def targets(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                yield from targets(x)
        else:
            yield t

    def root(t):
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred, ast.Call)):
            t = t.func if isinstance(t, ast.Call) else t.value
        return t

    def visit(fn, outer):
        args = fn.args
        given = {a.arg for a in args.args + args.posonlyargs + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]}
        own, inner, nodes, outside = set(), [], [], set()
        todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                inner.append(x)
                if not isinstance(x, ast.Lambda):
                    own.add(x.name)
                continue
            nodes.append(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                outside |= set(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                own.add(x.id)
            todo += list(ast.iter_child_nodes(x))
        own -= outside
        mutable = {a.arg for a, d in zip(args.args[::-1], args.defaults[::-1]) if not isinstance(d, ast.Constant)}
        mutable |= {a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None and not isinstance(d, ast.Constant)}

        making = getattr(fn, "name", "") in ("__init__", "__post_init__", "__new__")

        def level(t):
            r = root(t)
            if not isinstance(r, ast.Name):
                return SHARED
            if r.id == "self" and making or r.id in vars(builtins):
                return LOCAL
            if r.id in mutable:
                return SHARED
            return PASSED if r.id in given else LOCAL if r.id in own else SHARED

        for x in nodes:
            tt, lv = [], []
            if isinstance(x, ast.Assign):
                tt = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tt = [x.target]
            elif isinstance(x, ast.Delete):
                tt = x.targets
            for t in tt:
                for t in targets(t):
                    if isinstance(t, ast.Name):
                        if t.id in outside:
                            lv.append(SHARED)
                    else:
                        lv.append(level(t))
            if isinstance(x, (ast.With, ast.AsyncWith)):
                lv.append(SHARED)
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    lv.append(level(f.value))
                if (
                    isinstance(f, ast.Name) and f.id in ("setattr", "delattr", "next")
                    or isinstance(f, ast.Attribute) and f.attr in ("__setattr__", "__delattr__")
                ) and x.args and isinstance(root(x.args[0]), ast.Name):
                    lv.append(level(x.args[0]))
            if lv:
                lines[x.lineno] = max(lv + [lines.get(x.lineno, LOCAL)])
        for x in inner:
            visit(x, own | given | outer)

    def top(x):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            visit(x, set())
        else:
            for y in ast.iter_child_nodes(x):
                top(y)

    top(tree)
    _cache[filename] = lines
    return lines


class Places:
    """Records at which events which line was executed (a few per line)."""

    def __init__(self, skip_forbidden=False, limit=None):
        self.count = 0
        self.limit = limit
        self.at = {}  # (file, line) -> [event number]
        self.skip = skip_forbidden

    def __call__(self, code, line):
        if self.skip and line in forbidden_lines(code.co_filename):
            return
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            raise SimStop()
        nn = self.at.setdefault((code.co_filename, line), [])
        if len(nn) < 4:
            nn.append(self.count)
        else:
            nn[3] = self.count

    def summary(self):
        """Event numbers per line, and those at which something may be stored."""
        lines = [nn for _, nn in sorted(self.at.items())]
        hot = {LOCAL: [], PASSED: [], SHARED: []}
        for (f, l), nn in sorted(self.at.items()):
            lv = writing_lines(f).get(l)
            if lv is not None:
                hot[lv].append(nn)
        return lines, hot


class SimInterrupt(KeyboardInterrupt):
    """The user's Ctrl-C."""


class SimMemoryError(MemoryError):
    """A failing allocation."""


FAULTS = {"interrupt": SimInterrupt, "memory": SimMemoryError}


class Lines:
    """Switch line events on for the code of the system; deliver to ``callback``."""

    def __init__(self, callback, instructions=()):
        self.callback = callback
        self.instr = tuple(instructions)

    def __enter__(self):
        MON.use_tool_id(TOOL, "sim")
        MON.register_callback(TOOL, MON.events.LINE, self.callback)
        if self.instr:
            MON.register_callback(TOOL, MON.events.INSTRUCTION, self.on_instruction)
        for c in all_code():
            e = MON.events.LINE
            if self.instr and short(c).startswith(self.instr):
                e |= MON.events.INSTRUCTION
            MON.set_local_events(TOOL, c, e)
        return self

    def on_instruction(self, code, offset):
        return self.callback(code, -offset - 1)

    def __exit__(self, *exc):
        for c in all_code():
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
        MON.free_tool_id(TOOL)


class Injector:
    """Counts line events of the calling thread; raises a fault at the chosen one."""

    def __init__(self, at=None, kind="interrupt"):
        self.at, self.kind = at, kind
        self.count = 0
        self.fired = None
        self.armed = True

    def __call__(self, code, line):
        if not self.armed:
            return
        if line in forbidden_lines(code.co_filename):
            return
        self.count += 1
        if self.at is not None and self.count == self.at:
            self.armed = False
            self.fired = f"{short(code)}:{line} ({code.co_name})"
            raise FAULTS[self.kind]("injected")


# ------------------------------------------------------------------- memory addresses


class Addresses:
    """What ``id()`` returns to the system: unique among living objects, and an address
    that becomes free is given to the next object of the same type, as real allocators
    (sometimes) do. Objects that cannot be weakly referenced keep their real address."""

    def __init__(self):
        self.table = {}  # real id -> (weak reference, address)
        self.unused = {}  # type -> [address]
        self.next = 0x7F0000000000
        self.reused = 0

    def __call__(self, o):
        k = id(o)
        e = self.table.get(k)
        if e is not None and e[0]() is o:
            return e[1]
        t = type(o)

        def gone(ref, k=k, t=t):
            e = self.table.get(k)
            if e is not None and e[0] is ref:
                del self.table[k]
                self.unused.setdefault(t, []).append(e[1])

        try:
            ref = weakref.ref(o, gone)
        except TypeError:
            return k
        old = self.unused.get(t)
        if old:
            a = old.pop()
            self.reused += 1
        else:
            a, self.next = self.next, self.next + 48
        self.table[k] = (ref, a)
        return a

    def hash(self, o):
        return self(o) >> 4 if type(o).__hash__ is object.__hash__ else hash(o)


ADDRESSES = Addresses()


def patch_addresses():
    for name, m in list(sys.modules.items()):
        if name == "portfolyo" or name.startswith("portfolyo."):
            d = m.__dict__
            d.setdefault("id", ADDRESSES)
            d.setdefault("hash", ADDRESSES.hash)


# --------------------------------------------------------------------------- scheduler

ACTIVE = None  # the running scheduler


class SimDeadlock(BaseException):
    pass


class SimStop(BaseException):
    pass


class Scheduler:
    """Runs the given functions as simulated threads, one at a time.

    ``policy`` decides who runs next:

    - ``policy.at(tid, local, runnable)`` at event ``local`` (count) of the running thread;
    - ``policy.free(why, tid, n, runnable)`` when the running thread has ended or waits for
      a lock (``n``: how many times that happened to it before).
    """

    def __init__(self, fns, policy, instructions=(), budget=1_500_000, fault=None):
        self.fns, self.policy = fns, policy
        self.instructions = instructions
        self.budget = budget
        self.fault = fault  # (tid, local event, exception class)
        self.fired = None
        self.step = 0
        self.n = len(fns)
        self.local = [0] * self.n
        self.freed = [0] * self.n
        self.record = []  # ["at", tid, local, to] and ["free", tid, n, to]
        self.trace = []  # (from, to, file, line, function) of preemptions
        self.problem = None

    def run(self):
        global ACTIVE
        self.sem = [REAL_ALLOCATE() for _ in range(self.n)]
        for s in self.sem:
            s.acquire()
        self.main = REAL_ALLOCATE()
        self.main.acquire()
        self.ident = {}
        self.alive = set(range(self.n))
        self.waiting = {}  # tid -> lock
        self.current = 0
        with Lines(self.on_line, self.instructions):
            for n in range(self.n):
                _thread.start_new_thread(self.body, (n,))
            while len(self.ident) < self.n:
                pass_gil()
            ACTIVE = self
            first = self.choose("free", -1, 0, sorted(self.alive))
            self.current = first
            self.sem[first].release()
            self.main.acquire()
        ACTIVE = None
        return self

    def choose(self, why, tid, n, runnable):
        nxt = self.policy.free(why, tid, n, runnable)
        if nxt not in runnable:
            nxt = runnable[0]
        self.record.append(["free", tid, n, nxt])
        return nxt

    def body(self, tid):
        self.ident[_thread.get_ident()] = tid
        self.sem[tid].acquire()
        try:
            self.fns[tid]()
        except (SimStop, SimDeadlock):
            pass
        except BaseException as e:  # harness error
            self.problem = self.problem or ("harness", repr(e))
        self.alive.discard(tid)
        self.waiting.pop(tid, None)
        r = self.runnable()
        if r:
            nxt = self.choose("end", tid, 0 if tid < 0 else 10**6, r)
        elif self.alive:
            # nobody can go on; wake them one by one, to unwind
            if self.problem is None:
                self.problem = ("deadlock", self.describe_waiting())
            nxt = min(self.alive)
        else:
            self.main.release()
            return
        self.current = nxt
        self.sem[nxt].release()

    def describe_waiting(self):
        return f"threads {sorted(self.waiting)} wait for a lock that nobody releases"

    def runnable(self):
        return sorted(t for t in self.alive if t not in self.waiting)

    def me(self):
        return self.ident.get(_thread.get_ident())

    def on_line(self, code, line):
        tid = self.ident.get(_thread.get_ident())
        if tid is None or tid != self.current:
            return
        self.step += 1
        self.local[tid] += 1
        if self.problem is not None:
            raise SimStop()
        if self.step > self.budget:
            self.problem = ("no-progress", f"no end after {self.budget} steps")
            raise SimStop()
        f = self.fault
        if f is not None and f[0] == tid and self.local[tid] >= f[1] and line > 0:
            if line not in forbidden_lines(code.co_filename):
                self.fault = None
                self.fired = f"{short(code)}:{line} ({code.co_name})"
                raise FAULTS[f[2]]("injected")
        r = self.runnable()
        if len(r) < 2:
            return
        nxt = self.policy.at(tid, self.local[tid], r)
        if nxt != tid and nxt in r:
            self.record.append(["at", tid, self.local[tid], nxt])
            self.trace.append((tid, nxt, short(code), line, code.co_name))
            self.switch(tid, nxt)

    def switch(self, tid, nxt):
        self.current = nxt
        self.sem[nxt].release()
        self.sem[tid].acquire()

    # Cooperative locks.

    def wait(self, tid, lock, can_timeout):
        """Thread ``tid`` cannot get ``lock``. Returns False if it must give up."""
        self.waiting[tid] = lock
        r = self.runnable()
        self.step += 1
        self.freed[tid] += 1
        if self.problem is not None or not r or self.step > self.budget:
            self.waiting.pop(tid, None)
            if can_timeout and self.step <= self.budget:
                return False
            if self.problem is None:
                self.problem = ("deadlock", f"threads {sorted([*self.waiting, tid])} wait for a lock that nobody releases")
            raise SimDeadlock()
        nxt = self.choose("wait", tid, self.freed[tid], r)
        self.switch(tid, nxt)
        self.waiting.pop(tid, None)
        if self.problem is not None:
            raise SimDeadlock()
        return True

    def wake(self, lock):
        for t, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[t]


class Policy:
    """Never switches, starts with the lowest thread."""

    def at(self, tid, local, runnable):
        return tid

    def free(self, why, tid, n, runnable):
        return runnable[0]


class RandomSwitch(Policy):
    """Switches with probability ``p`` at each event."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def at(self, tid, local, runnable):
        if self.rng.random() < self.p:
            return self.rng.choice(runnable)
        return tid

    def free(self, why, tid, n, runnable):
        return self.rng.choice(runnable)


class Preempt(RandomSwitch):
    """Preempts at a few chosen events; others then run as far as they can."""

    def __init__(self, rng, points):
        self.rng, self.points = rng, set(points)  # {(tid, local)}

    def at(self, tid, local, runnable):
        if (tid, local) in self.points:
            return self.rng.choice([t for t in runnable if t != tid])
        return tid


class Priorities(RandomSwitch):
    """Highest priority runs; at chosen total event counts, the running one drops to the
    lowest priority."""

    def __init__(self, rng, n, changes):
        self.rng = rng
        self.prio = list(range(1, n + 1))
        rng.shuffle(self.prio)
        self.changes, self.count, self.low = set(changes), 0, 0

    def best(self, runnable):
        return max(runnable, key=lambda t: self.prio[t])

    def at(self, tid, local, runnable):
        self.count += 1
        if self.count in self.changes:
            self.low -= 1
            self.prio[tid] = self.low
        return self.best(runnable)

    def free(self, why, tid, n, runnable):
        return self.best(runnable)


class Recorded(Policy):
    def __init__(self, record):
        self.a = {(t, n): to for k, t, n, to in record if k == "at"}
        self.f = {(t, n): to for k, t, n, to in record if k == "free"}

    def at(self, tid, local, runnable):
        return self.a.get((tid, local), tid)

    def free(self, why, tid, n, runnable):
        return self.f.get((tid, n), runnable[0])


def pass_gil():
    import time

    time.sleep(0.0001)


class SimLock:
    """Replaces ``threading.Lock``. Behaves as a normal lock outside of simulated threads."""

    def __init__(self):
        self._lock = REAL_ALLOCATE()

    def acquire(self, blocking=True, timeout=-1):
        while not self._lock.acquire(False):
            if not blocking:
                return False
            s = ACTIVE
            tid = s.me() if s is not None else None
            if tid is None:
                if timeout is None or timeout < 0:
                    while not self._lock.acquire(True, 4):
                        if self._blocking_forever():
                            raise SimDeadlock("lock is never released")
                    return True
                return self._lock.acquire(True, timeout)
            if not s.wait(tid, self, timeout is not None and timeout >= 0):
                return False
        return True

    def _blocking_forever(self):
        # nobody else runs in a simulated process outside of the scheduler
        return ACTIVE is None and _thread._count() == 0

    def release(self):
        self._lock.release()
        s = ACTIVE
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._lock = REAL_ALLOCATE()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._block.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return (c, o)

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


def patch_locks():
    """Must run before the simulated system and its dependencies are imported."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
