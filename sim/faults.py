"""Seams of the simulator: line events of decomon's own code (aborts, cooperative scheduling), variable
assignment, checkpoint files, random draws, object identities. Nothing here is active outside a `with`.
"""
import contextlib
import gc
import os
import sys
import threading
import time
import types
import weakref

from rng import Rng

MON = sys.monitoring
TOOL = 4
_codes = None
_root = None
_owner = None  # callback target of LINE events
_RULE_DISABLED = None


class SimFault:
    """Mixin marking the exceptions that the simulator injects."""


class SimMemoryError(SimFault, MemoryError):
    pass


class SimInterrupt(SimFault, KeyboardInterrupt):
    pass


class SimOSError(SimFault, OSError):
    pass


def setup(src_root):
    """Collect every code object of the decomon package."""
    global _codes, _root
    if _codes is not None:
        return len(_codes)
    _root = os.path.realpath(os.path.join(src_root, "decomon")) + os.sep
    seen = {}

    def walk(code):
        if code in seen or not os.path.realpath(code.co_filename).startswith(_root):
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            fn = obj.__code__.co_filename
            if "decomon" in fn:
                walk(obj.__code__)
    _codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    MON.use_tool_id(TOOL, "decomon-sim")
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    return len(_codes)


def _on_line(code, line):
    o = _owner
    if o is not None:
        o.on_line(code, line)


@contextlib.contextmanager
def lines(owner):
    """Send the LINE events of decomon's code to `owner` while the context is open."""
    global _owner
    assert _owner is None
    for c in _codes:
        MON.set_local_events(TOOL, c, MON.events.LINE)
    _owner = owner
    try:
        yield owner
    finally:
        _owner = None
        for c in _codes:
            MON.set_local_events(TOOL, c, 0)


def site(code, line):
    return f"{os.path.realpath(code.co_filename)[len(_root):]}:{line}"


def pick_function(counters, a, b):
    """One function of decomon among those executed by several calls (by all of them if there is none): first a
    file, then a function of that file."""
    n = {}
    for c in counters:
        for code in c.codes:
            n[code] = n.get(code, 0) + 1
    codes = [c for c in n if n[c] > 1] or list(n)
    files = sorted({c.co_filename for c in codes})
    if not files:
        return set()
    f = files[int(a * len(files))]
    fns = sorted((c for c in codes if c.co_filename == f), key=lambda c: (c.co_firstlineno, c.co_name))
    return {fns[int(b * len(fns))]}


class Abort:
    """Raise one exception at the n-th executed line of decomon (any thread)."""

    def __init__(self, at, exc):
        self.at = at
        self.exc = exc
        self.count = 0
        self.fired = None

    def on_line(self, code, line):
        self.count += 1
        if self.count == self.at:
            self.fired = site(code, line)
            raise (SimMemoryError if self.exc == "mem" else SimInterrupt)("injected")


class Collect:
    """Run the garbage collector at given lines."""

    def __init__(self, at):
        self.at = set(at)
        self.count = 0
        self.done = 0

    def on_line(self, code, line):
        self.count += 1
        if self.count in self.at:
            self.done += 1
            gc.collect()


class Counter:
    def __init__(self):
        self.count = 0
        self.codes = {}

    def on_line(self, code, line):
        self.count += 1
        self.codes[code] = self.codes.get(code, 0) + 1


@contextlib.contextmanager
def failing_assign(keras, at):
    """The n-th variable assignment of the operation fails (nothing is assigned)."""
    Var = keras.Variable
    cls = next(c for c in Var.__mro__ if "assign" in c.__dict__)
    orig = cls.assign
    state = {"n": 0, "fired": None}

    def assign(self, value):
        state["n"] += 1
        if state["n"] == at:
            state["fired"] = "assign"
            raise SimMemoryError("injected")
        return orig(self, value)

    cls.assign = assign
    try:
        yield state
    finally:
        cls.assign = orig


@contextlib.contextmanager
def failing_optimizer(keras, at):
    """The n-th optimizer step of the operation fails, or the training is interrupted there."""
    cls = keras.optimizers.Optimizer
    cls = next(c for c in cls.__mro__ if "apply" in c.__dict__)
    orig = cls.apply
    state = {"n": 0, "fired": None}

    def apply(self, *a, **k):
        state["n"] += 1
        if state["n"] == at:
            state["fired"] = "optimizer"
            raise SimInterrupt("injected")
        return orig(self, *a, **k)

    cls.apply = apply
    try:
        yield state
    finally:
        cls.apply = orig


@contextlib.contextmanager
def failing_h5(at, mode):
    """The n-th access to a checkpoint file fails: mode "read" (EIO) or "write" (full disk)."""
    import h5py

    state = {"n": 0, "fired": None}
    G = h5py.Group
    name = "create_dataset" if mode == "write" else "__getitem__"
    orig = {}
    targets = [G] + ([h5py.Dataset] if mode == "read" else [])

    def make(cls, o):
        def f(self, *a, **k):
            state["n"] += 1
            if state["n"] == at:
                state["fired"] = "h5" + mode
                raise SimOSError(28 if mode == "write" else 5, "injected")
            return o(self, *a, **k)

        return f

    for cls in targets:
        orig[cls] = cls.__dict__[name]
        setattr(cls, name, make(cls, orig[cls]))
    orig_set = G.__setitem__
    if mode == "write":
        G.__setitem__ = make(G, orig_set)
    try:
        yield state
    finally:
        for cls, o in orig.items():
            setattr(cls, name, o)
        G.__setitem__ = orig_set


def damage_file(path, how, rng):
    """Torn, short, lost or corrupted checkpoint. Returns a label."""
    size = os.path.getsize(path)
    if how == "lost":
        os.remove(path)
    elif how == "short":
        with open(path, "r+b") as f:
            f.truncate(rng.randrange(0, size))
    elif how == "torn":
        a = rng.randrange(0, size)
        with open(path, "r+b") as f:
            f.seek(a)
            f.write(b"\0" * min(size - a, rng.pick([64, 512, 4096])))
    elif how == "flip":
        with open(path, "r+b") as f:
            for _ in range(rng.randint(1, 3)):
                a = rng.randrange(0, size)
                f.seek(a)
                b = f.read(1)
                f.seek(a)
                f.write(bytes([b[0] ^ (1 << rng.randrange(8))]))
    return how


@contextlib.contextmanager
def random_draws(policy, seed):
    """Decide the random draws of the library: seeded, or always the first/last possible value."""
    import numpy as np

    st = np.random.get_state()
    np.random.seed(seed % (2**32))
    orig = np.random.randint
    r = np.random.RandomState(seed % (2**32))
    draws = []

    def randint(low, high=None, size=None, dtype=int):
        if size is not None or policy == "seeded":
            v = r.randint(low, high, size=size, dtype=dtype)
        else:
            lo, hi = (0, low) if high is None else (low, high)
            if hi <= lo:
                raise ValueError("low >= high")
            v = lo if policy == "first" else hi - 1 if policy == "last" else (lo if r.rand() < 0.5 else hi - 1)
        draws.append(v)
        return v

    np.random.randint = randint
    try:
        yield draws
    finally:
        np.random.randint = orig
        np.random.set_state(st)


class VirtualIds:
    """Identities of objects as seen by decomon's code: the id of a dead object is given again to the next
    new one, as CPython is free to do."""

    def __init__(self):
        self.free = []
        self.live = {}
        self.next = 1 << 50
        self.reused = 0
        self.refs = {}

    def _dead(self, real):
        vid = self.live.pop(real, None)
        self.refs.pop(real, None)
        if vid is not None:
            self.free.append(vid)

    def __call__(self, obj):
        real = id(obj)
        v = self.live.get(real)
        if v is not None:
            return v
        try:
            ref = weakref.ref(obj, lambda _, r=real: self._dead(r))
        except TypeError:
            return real
        if self.free:
            v = self.free.pop()
            self.reused += 1
        else:
            v = self.next
            self.next += 16
        self.live[real] = v
        self.refs[real] = ref
        return v

    @contextlib.contextmanager
    def installed(self):
        mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "decomon" and isinstance(m, types.ModuleType)]
        done = []
        for m in mods:
            if "id" not in m.__dict__:
                m.__dict__["id"] = self
                done.append(m)
        try:
            yield self
        finally:
            for m in done:
                m.__dict__.pop("id", None)


class Stalled(Exception):
    pass


# ------------------------------------------------------------------ cooperative threads
_real_lock, _real_rlock = threading.Lock, threading.RLock
_scheduler = None


class SimLock:
    """What decomon's code gets for threading.Lock / RLock: the simulated scheduler sees who waits for it."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = _scheduler
        if s is None or not blocking or threading.get_ident() not in s.tids:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not s.blocked():
                return self._l.acquire(True, timeout)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


def patch_locks(src_root):
    """Before decomon is imported: locks created from its files are SimLocks."""
    root = os.path.realpath(src_root) + os.sep

    def make(real):
        def f(*a, **k):
            if os.path.realpath(sys._getframe(1).f_code.co_filename).startswith(root):
                return SimLock(real(*a, **k))
            return real(*a, **k)

        return f

    threading.Lock, threading.RLock = make(_real_lock), make(_real_rlock)


class Scheduler:
    """Run callables in real threads, one at a time; the switches happen at lines of decomon's code.

    schedule: {"seed": s, "p": prob}: at each line, switch with that probability;
    {"seed": s, "p": prob, "novel": 1}: only lines that the thread had not executed yet are considered;
    {"seed": s, "points": [n, ...]}: switch at these lines (counted over all threads) only;
    {"seed": s, "p": prob, "focus": [code, ...]}: only the lines of these functions are considered;
    {"switches": [[step, target], ...]}: replay.
    aborts: {thread: [n-th line of that thread, exception]}.
    """

    def __init__(self, fns, schedule, aborts=None, stall_s=6.0):
        self.fns = fns
        self.n = len(fns)
        self.rng = Rng("sched", schedule.get("seed", 0))
        self.p = schedule.get("p", 0.0)
        self.novel = bool(schedule.get("novel"))
        self.focus = schedule.get("focus")
        self.points = set(schedule.get("points", ()))
        self.explicit = None
        if "switches" in schedule:
            self.explicit = {}
            for s, t in schedule["switches"]:
                self.explicit.setdefault(int(s), []).append(t)
        self.aborts = aborts or {}
        self.fired = {}
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.steps = 0
        self.tsteps = [0] * self.n
        self.seen = [set() for _ in fns]
        self.switches = []
        self.sites = []
        self.current = None
        self.lock = _real_lock()
        self.tids = {}
        self.alive = threading.Semaphore(0)
        self.stalls = 0
        self.waits = 0
        self.stall_s = stall_s
        self.beat = 0
        self.blocked_now = set()
        self.deadlock = False

    def _runnable(self, but=None):
        return [i for i in range(self.n) if not self.done[i] and i != but]

    def _switch(self, me, tgt, key, where):
        self.switches.append([key, tgt])
        self.sites.append(where)
        self.current = tgt
        self.sem[tgt].release()
        self.sem[me].acquire()

    def blocked(self):
        """The running thread waits for a lock: let the others run."""
        me = self.tids[threading.get_ident()]
        if self.current != me or self.stalls:
            return False
        self.waits += 1
        self.blocked_now.add(me)
        rest = [i for i in self._runnable(me) if i not in self.blocked_now]
        if not rest:
            self.deadlock = True
            return False
        self._switch(me, rest[self.waits % len(rest)], -1000 - self.waits, "lock")
        return True

    def on_line(self, code, line):
        me = self.tids.get(threading.get_ident())
        if me is None:
            return
        if self.current != me:
            # resumed after having been considered stalled: wait for its turn
            self.sem[me].acquire()
        self.beat += 1
        self.blocked_now.clear()
        self.steps += 1
        self.tsteps[me] += 1
        ab = self.aborts.get(me)
        if ab and self.tsteps[me] == ab[0]:
            self.fired[me] = site(code, line)
            raise (SimMemoryError if ab[1] == "mem" else SimInterrupt)("injected")
        tgt = None
        if self.explicit is not None:
            for t in self.explicit.get(self.steps, ()):
                if t != me and t < self.n and not self.done[t]:
                    tgt = t
        elif not self.stalls:
            new = (code, line) not in self.seen[me]
            if new:
                self.seen[me].add((code, line))
            if self.steps in self.points or (self.p and (new or not self.novel) and (self.focus is None or code in self.focus)
                                             and self.rng.random() < self.p):
                others = self._runnable(me)
                if others:
                    tgt = others[self.rng.randrange(len(others))]
        if tgt is not None:
            self._switch(me, tgt, self.steps, site(code, line))

    def _thread(self, i):
        self.tids[threading.get_ident()] = i
        self.sem[i].acquire()
        try:
            self.results[i] = ("ok", self.fns[i]())
        except BaseException as e:  # noqa
            self.results[i] = ("err", e)
        with self.lock:
            self.done[i] = True
            self.beat += 1
            self.blocked_now.clear()
            if self.current == i:
                rest = self._runnable()
                if rest:
                    # who goes on is part of the schedule
                    j = rest[self.rng.randrange(len(rest))] if self.explicit is None else rest[0]
                    if self.explicit is not None:
                        for t in self.explicit.get(-(i + 1), ()):
                            if t in rest:
                                j = t
                    self.switches.append([-(i + 1), j])
                    self.current = j
                    self.sem[j].release()
        self.alive.release()

    def run(self, max_s=150.0):
        global _scheduler
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        with lines(self):
            _scheduler = self
            try:
                self._supervise(threads, max_s)
            finally:
                _scheduler = None
        for t in threads:
            t.join(timeout=5)
        return self.results

    def _supervise(self, threads, max_s):
        for t in threads:
            t.start()
        self.current = 0
        self.sem[0].release()
        left = self.n
        t0 = time.monotonic()
        last, last_t = self.beat, time.monotonic()
        while left:
            if self.alive.acquire(timeout=0.5):
                left -= 1
                last_t = time.monotonic()
                continue
            now = time.monotonic()
            if self.beat != last:
                last, last_t = self.beat, now
            elif now - last_t > self.stall_s:
                # the running thread waits for something held by a parked one: from now on each thread
                # goes on as far as it can
                with self.lock:
                    rest = self._runnable(self.current)
                    self.stalls += 1
                    if rest and self.stalls < 12:
                        j = rest[(self.stalls - 1) % len(rest)]
                        self.current = j
                        self.sem[j].release()
                last_t = now
            if now - t0 > max_s or self.stalls > 12:
                raise Stalled(f"threads {[i for i in range(self.n) if not self.done[i]]} never return")
