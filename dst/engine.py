"""The simulator: one runnable client at a time, every instruction a decision point.

Nothing in here knows any name inside protosym.  The code under test is
whatever the loader below loads from the source tree, plus the standard
`weakref` module; those code objects carry INSTRUCTION monitoring events and
`_on_instr` is called before each of their bytecode instructions.
"""

import dis
import gc
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import threading
import types
import zlib
import _thread

mon = sys.monitoring
TOOL = 3
EV_INSTR = mon.events.INSTRUCTION

_real_allocate = _thread.allocate_lock
_real_RLock = _thread.RLock

# ----------------------------------------------------------------------------
# Instrumentation
# ----------------------------------------------------------------------------

EB = {}  # code -> frozenset of offsets at which CPython polls for signals/GIL
UNRAISABLE = set()  # weakref removal callbacks: an exception in there is lost
_ready = False


def monitor_init():
    global _ready
    if not _ready:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, EV_INSTR, _on_instr)
        _ready = True


def _eb_offsets(code):
    out = set()
    after_call = False
    for ins in dis.get_instructions(code):
        if after_call:
            out.add(ins.offset)
            after_call = False
        if ins.opname in ("RESUME", "JUMP_BACKWARD"):
            out.add(ins.offset)
        elif ins.opname in ("CALL", "CALL_FUNCTION_EX"):
            after_call = True
    return frozenset(out)


def instrument(code):
    """Instrument a code object and every code object nested in it."""
    if code in EB:
        return
    EB[code] = _eb_offsets(code)
    if code.co_name == "remove" and os.path.basename(code.co_filename) == "weakref.py":
        UNRAISABLE.add(code)
    mon.set_local_events(TOOL, code, EV_INSTR)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            instrument(const)


def instrument_module(mod):
    fn = getattr(mod, "__file__", None)
    seen = set()

    def visit(obj):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        if isinstance(obj, types.FunctionType):
            if obj.__code__.co_filename == fn:
                instrument(obj.__code__)
        elif isinstance(obj, (classmethod, staticmethod)):
            visit(obj.__func__)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f)
        elif isinstance(obj, type) and obj.__module__ == mod.__name__:
            for v in list(vars(obj).values()):
                visit(v)

    for v in list(vars(mod).values()):
        visit(v)


class _Loader(importlib.machinery.SourceFileLoader):
    """Always compiles from source (never a cached .pyc) and instruments."""

    def path_stats(self, path):
        raise OSError("no bytecode cache")

    def set_data(self, path, data, *, _mode=0o666):
        pass

    def source_to_code(self, data, path, *, _optimize=-1):
        code = super().source_to_code(data, path, _optimize=_optimize)
        instrument(code)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src):
        self.src = src

    def find_spec(self, name, path=None, target=None):
        if name != "protosym" and not name.startswith("protosym."):
            return None
        base = os.path.join(self.src, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init),
                submodule_search_locations=[base])
        py = base + ".py"
        if os.path.isfile(py):
            return importlib.util.spec_from_file_location(
                name, py, loader=_Loader(name, py))
        return None


SRC = None


def install_loader(src):
    global SRC
    SRC = os.path.realpath(src)
    monitor_init()
    sys.meta_path.insert(0, _Finder(SRC))
    import weakref
    import _weakrefset
    instrument_module(weakref)
    instrument_module(_weakrefset)
    _patch_locks()


# ----------------------------------------------------------------------------
# Locks
# ----------------------------------------------------------------------------


LOCKS_HELD = 0


def locks_held():
    """Is any simulated lock, or any import of the code under test, in progress?"""
    if LOCKS_HELD:
        return True
    for name, ref in list(getattr(importlib._bootstrap, "_module_locks", {}).items()):
        if name.startswith("protosym"):
            lock = ref()
            if lock is not None and getattr(lock, "owner", None) is not None:
                return True
    return False


class SimLock:
    """Simulated lock: blocks the simulated client, never the OS thread."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        c = CUR
        while self._held:
            if not blocking:
                return False
            if c is None or not c.sim.running:
                raise RuntimeError("lock held outside the simulation")
            if c.sim.block(c, self, timeout >= 0) == "timeout":
                return False
        self._held = True
        global LOCKS_HELD
        LOCKS_HELD += 1
        if c is not None:
            c.sim.stats["lock_acquires"] += 1
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        global LOCKS_HELD
        LOCKS_HELD -= 1
        c = CUR
        if c is not None:
            c.sim.unblock(self)

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        self._held = False
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._held and self._owner == me:
            self._count += 1
            return True
        if SimLock.acquire(self, blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if not self._held or self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            SimLock.release(self)

    def _is_owned(self):
        return self._held and self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        SimLock.release(self)
        return st

    def _acquire_restore(self, st):
        SimLock.acquire(self)
        self._count, self._owner = st


def _wants_sim_lock():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(SRC):
            return True
        if fn == "<frozen importlib._bootstrap>":
            # module locks: of the code under test, and of whatever a client imports
            name = f.f_locals.get("name")
            return CUR is not None or isinstance(name, str) and name.startswith("protosym")
        f = f.f_back
    return False


def _lock_factory():
    return SimLock() if _wants_sim_lock() else _real_allocate()


def _rlock_factory():
    return SimRLock() if _wants_sim_lock() else _real_RLock()


def _patch_locks():
    _thread.allocate_lock = _lock_factory
    _thread.allocate = _lock_factory
    _thread.RLock = _rlock_factory
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._CRLock = _rlock_factory


# ----------------------------------------------------------------------------
# Scheduling
# ----------------------------------------------------------------------------

CUR = None  # the running client
BIG = 1 << 60


class SimFault(Exception):
    """Raised by caller-supplied code (rule functions, __hash__ ...)."""


def callback_point(classes=(SimFault,)):
    """Every function supplied by the simulated callers passes through here."""
    c = CUR
    if c is None or not c.inop or not c.kf:
        return
    if c.kf > 1:
        c.kf -= 1
        return
    f = sys._getframe(1)
    while f is not None:
        if f.f_code in UNRAISABLE:
            return
        f = f.f_back
    c.kf = 0
    e = classes[c.opid % len(classes)]("from a caller-supplied function")
    c.injected.append(e)
    c.sim.stats["f_callback"] += 1
    raise e


class Client:
    __slots__ = (
        "sim", "id", "ops", "n", "next", "inop", "lock", "state", "acts",
        "op", "opid", "injected", "slots", "waiting", "timed", "next_sw",
        "next_exc", "next_gc", "next_fin", "exc_kind", "timeout_flag", "log", "limit",
        "deferred", "scratch", "site", "kf", "passed")

    def __init__(self, sim, id, ops):
        self.sim = sim
        self.id = id
        self.ops = ops
        self.n = 0
        self.next = BIG
        self.inop = False
        self.lock = _real_allocate()
        self.lock.acquire()
        self.state = "ready"
        self.acts = None
        self.op = None
        self.opid = None
        self.injected = []
        self.slots = {}
        self.waiting = None
        self.timed = False
        self.timeout_flag = False
        self.log = []
        self.passed = None
        self.limit = BIG
        self.deferred = None
        self.scratch = None
        self.site = 0


IDLE = 0  # instructions executed outside operations since the last one began
IDLE_LIMIT = 60_000_000  # lowered with op_limit
SIM = None


def _count_only(code, off):
    """Outside operations, and while preemption is off: only notice hanging."""
    global IDLE
    IDLE += 1
    if IDLE > IDLE_LIMIT:
        IDLE = 0
        c = CUR
        if c is not None:
            c.inop = False
        if SIM is not None:
            SIM.fail("no-progress", f"still running after {IDLE_LIMIT} instructions outside any operation"
                     f" ({code.co_qualname}; last operation {c and c.op})", c)


def _on_instr(code, off):
    c = CUR
    if c is None or not c.inop:
        _count_only(code, off)
        return
    n = c.n = c.n + 1
    if n >= c.next:
        c.sim.slow(c, code, off)


class Violation(BaseException):
    """Internal: unwinds a client after sim.fail when not exiting at once."""


class Sim:
    """One run.  `rng` is None in replay mode (then `acts` drives it)."""

    def __init__(self, knobs, rng, acts, on_fail, op_limit=3_000_000):
        self.knobs = knobs
        self.rng = rng
        self.acts = acts  # {(cid, opid): [[n, kind, arg], ...]} when replaying
        self.on_fail = on_fail
        self.op_limit = op_limit
        global IDLE_LIMIT
        IDLE_LIMIT = 8 * op_limit
        self.clients = []
        self.running = False
        self.seq = 0
        self.trace = {}  # what was decided, same shape as acts
        self.stats = dict.fromkeys(
            ("switches", "blocked", "lock_acquires", "events", "ops",
             "f_interrupt", "f_memory", "f_gc", "f_recursion", "f_callback",
             "f_import", "f_reenter", "gc_ops", "finalizer_reentry", "inflight_switches",
             "swallowed"), 0)
        self.digest = 0
        self.sites = set()
        self.failed = []
        self.allow_exc = True
        self.reenter = None  # callable(arg): what a finaliser or signal handler runs
        self.main_lock = _real_allocate()
        self.main_lock.acquire()

    # -- recording ------------------------------------------------------
    def _rec(self, c, n, kind, arg):
        self.trace.setdefault((c.id, c.opid), []).append([n, kind, arg])

    def _mix(self, *vals):
        self.digest = (self.digest * 1000003 ^ zlib.crc32(repr(vals).encode())) & 0xFFFFFFFFFFFFFFFF

    def fail(self, cls, msg, client=None):
        c = client or CUR
        self.on_fail(cls, msg, c)
        raise Violation(cls)

    def draw_gap(self):
        gap = self.knobs["gap"]
        if self.knobs.get("burst") and self.rng.random() < 0.5:
            gap *= 60  # let others run whole operations meanwhile
        return int(self.rng.expovariate(1.0 / gap))

    # -- arming ---------------------------------------------------------
    def arm(self, c, op):
        global IDLE
        IDLE = 0
        c.op = op
        c.opid = op["id"]
        c.n = 0
        c.injected = []
        c.kf = op.get("kf", 0)
        c.limit = op.get("limit", self.op_limit)
        if self.rng is None:
            c.acts = [a for a in self.acts.get((c.id, c.opid), ()) if a[0] > 0]
            c.acts.reverse()
            c.next = min(c.acts[-1][0] if c.acts else BIG, c.limit)
            return
        k, r = self.knobs, self.rng
        c.next_sw = BIG
        c.next_exc = BIG
        c.next_gc = BIG
        c.next_fin = BIG
        if len(self.clients) > 1:
            # gap 0: only a fairness switch, so that waiting by spinning makes progress
            c.next_sw = 1 + self.draw_gap() if k["gap"] else 100_000
        if self.allow_exc and k["p_exc"] and r.random() < k["p_exc"] and not op.get("nofault"):
            c.next_exc = 1 + int(2 ** r.uniform(0, k["exc_span"]))
            c.exc_kind = r.choice(k["exc_kinds"])
        if "fi" in op and self.allow_exc:
            c.next_exc = op["fi"]
            c.exc_kind = r.choice(k["exc_kinds"])
        if k["p_gc"] and r.random() < k["p_gc"]:
            c.next_gc = 1 + int(2 ** r.uniform(0, k["exc_span"]))
        if k.get("p_fin") and r.random() < k["p_fin"]:
            c.next_fin = 1 + int(2 ** r.uniform(0, k["exc_span"]))
        self.renext(c)

    @staticmethod
    def renext(c):
        c.next = min(c.next_sw, c.next_exc, c.next_gc, c.next_fin, c.limit)

    # -- the decision point ---------------------------------------------
    def slow(self, c, code, off):
        n = c.n
        if n >= c.limit:
            c.inop = False
            self.fail("no-progress", f"operation {c.op} still running after {n} instructions", c)
        if self.rng is None:
            while c.acts and c.acts[-1][0] <= n:
                a = c.acts[-1]
                if a[1] != "sw" and off not in EB[code]:
                    c.next = min(n + 1, c.limit)
                    return
                c.acts.pop()
                c.next = min(c.acts[-1][0] if c.acts else BIG, c.limit)
                self.act(c, n, a[1], a[2], code, off)
            c.next = min(c.acts[-1][0] if c.acts else BIG, c.limit)
            return
        k, r = self.knobs, self.rng
        if n >= c.next_gc:
            if off in EB[code]:
                c.next_gc = BIG
                self.act(c, n, "gc", None)
            else:
                c.next_gc = n + 1
        if n >= c.next_fin:
            if off in EB[code]:
                c.next_fin = BIG
                if r.random() < 0.4:
                    c.next_fin = n + 1 + int(2 ** r.uniform(0, k["exc_span"]))
                self.renext(c)
                self.act(c, n, "fin", r.randrange(1 << 30), code, off)
                n = c.n
            else:
                c.next_fin = n + 1
        if n >= c.next_sw:
            c.next_sw = n + 1 + self.draw_gap() if k["gap"] else n + 100_000
            if not k.get("eb_only") or off in EB[code]:
                others = [d.id for d in self.clients if d is not c and d.state == "ready"]
                if others:
                    self.act(c, n, "sw", others[r.randrange(len(others))], code, off)
            else:
                c.next_sw = n + 1
        if n >= c.next_exc:
            if off in EB[code] and not (k.get("no_remove") and code in UNRAISABLE):
                c.next_exc = BIG
                if k["p_exc"] and r.random() < 0.15:  # hit the unwinding / retry too
                    c.next_exc = n + 1 + int(2 ** r.uniform(0, 5))
                self.renext(c)
                self.act(c, n, "exc", c.exc_kind)
            else:
                c.next_exc = n + 1
        self.renext(c)

    def act(self, c, n, kind, arg, code=None, off=0):
        self._rec(c, n, kind, arg)
        self.seq += 1
        self._mix(c.id, c.opid, n, kind, arg)
        if kind == "sw":
            d = self.clients[arg] if arg < len(self.clients) else None
            if d is not None and d is not c and d.state == "ready":
                self.stats["switches"] += 1
                if n > 0:
                    self.stats["inflight_switches"] += 1
                    c.site = zlib.crc32(code.co_qualname.encode(), off) & 0xFFFFF
                    if len(self.sites) < 200:
                        self.sites.add((c.site * 31 + d.site) & 0xFFFFF)
                else:
                    c.site = 0
                self.switch(c, d)
        elif kind == "gc":
            self.stats["f_gc"] += 1
            gc.collect()
        elif kind == "fin":
            self.stats["f_reenter"] += 1
            self.reenter(c, arg)
        elif kind == "exc":
            if arg == "interrupt":
                self.stats["f_interrupt"] += 1
                e = KeyboardInterrupt("injected")
            else:
                self.stats["f_memory"] += 1
                e = MemoryError("injected")
            c.injected.append(e)
            raise e

    # -- control transfer -------------------------------------------------
    def switch(self, c, d):
        global CUR
        CUR = d
        d.lock.release()
        c.lock.acquire()
        # whoever released us has set CUR

    def pick_other(self, c):
        k = len(self.clients)
        for j in range(1, k):
            d = self.clients[(c.id + j) % k]
            if d.state == "ready":
                return d
        for j in range(1, k):
            d = self.clients[(c.id + j) % k]
            if d.state == "blocked" and d.timed:
                d.state = "ready"
                d.timeout_flag = True
                return d
        return None

    def block(self, c, lock, timed):
        self.stats["blocked"] += 1
        inop, c.inop = c.inop, False
        c.state = "blocked"
        c.waiting = lock
        c.timed = timed
        c.timeout_flag = False
        d = self.pick_other(c)
        if d is None:
            if timed:
                c.state = "ready"
                c.waiting = None
                c.inop = inop
                return "timeout"
            self.fail("deadlock", "every client is waiting for a lock: "
                      + ", ".join(f"client {x.id} in {x.op and x.op.get('op')}" for x in self.clients if x.state == "blocked"), c)
        self.switch(c, d)
        c.waiting = None
        c.inop = inop
        return "timeout" if c.timeout_flag else "ok"

    def unblock(self, lock):
        for d in self.clients:
            if d.state == "blocked" and d.waiting is lock:
                d.state = "ready"

    def boundary(self, c, op):
        """Before an operation: maybe let another client go first."""
        c.opid = op["id"]
        self.seq += 1
        if self.rng is None:
            for a in self.acts.get((c.id, c.opid), ()):
                if a[0] == 0:
                    self.act(c, 0, a[1], a[2])
                    c.opid = op["id"]
            return
        if len(self.clients) > 1 and self.rng.random() < self.knobs["p_bound"]:
            others = [d.id for d in self.clients if d is not c and d.state == "ready"]
            if others:
                self.act(c, 0, "sw", others[self.rng.randrange(len(others))])

    def finish(self, c):
        global CUR
        c.state = "done"
        d = self.pick_other(c)
        if d is None:
            stuck = [x for x in self.clients if x.state == "blocked"]
            if stuck:
                self.fail("deadlock", "clients wait for ever for a lock nobody will release: "
                          + ", ".join(f"client {x.id} in {x.op.get('op')}" for x in stuck), c)
            CUR = None
            self.main_lock.release()
        else:
            CUR = d
            d.lock.release()

    def run(self, programs, body):
        """programs: list of op lists; body(c, op) executes one operation."""
        global CUR
        for i, ops in enumerate(programs):
            self.clients.append(Client(self, i, ops))
        self.running = True
        sys.setswitchinterval(1000)

        started = _real_allocate()
        started.acquire()
        self.park = _real_allocate()
        self.park.acquire()

        def main(c):
            started.release()
            c.lock.acquire()
            try:
                for op in c.ops:
                    self.boundary(c, op)
                    body(c, op)
            except Violation:
                return
            except BaseException as e:  # harness bug
                import traceback
                text = "".join(traceback.format_exception(e))
                files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                ours = os.path.dirname(os.path.abspath(__file__))
                if isinstance(e, RecursionError):  # it is the library that went deep, wherever that ended
                    while files and "/protosym/" not in files[-1]:
                        files.pop()
                if files and not files[-1].startswith(ours) and any("/protosym/" in f for f in files):
                    # raised by the library in a place where it has no business raising
                    self.on_fail("unexpected-error", text[-2500:], c)
                self.on_fail("HARNESS", text, c)
            self.finish(c)
            # Threads outlive the closing checks: what a thread's local state
            # holds is still held, and no thread is torn down while others run.
            self.park.acquire()

        for c in self.clients:
            _thread.start_new_thread(main, (c,))
            started.acquire()  # one thread start-up at a time
        if self.clients:
            CUR = self.clients[min(self.knobs.get("first", 0), len(self.clients) - 1)]
            CUR.lock.release()
            self.main_lock.acquire()
        self.running = False
        CUR = None
