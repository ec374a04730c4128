"""The scheduler: real threads, one running at a time, switched only where the plan says.

Every bytecode executed by the package is an event (sys.monitoring INSTRUCTION events on the package's code
objects only).  Events are counted per operation; a plan names preemptions (thread, op, event -> thread) and
aborts (thread, op, event, exception).  Which thread runs is therefore a pure function of the plan and the code.
"""
import ast, os, sys, threading, hashlib, dis
from . import boot

TOOL = 4
E = sys.monitoring.events
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


INJ = {"KeyboardInterrupt": InjectedInterrupt, "MemoryError": InjectedMemoryError}


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


_active = None
_installed = False
_CODE = {}
BINARY_OP = dis.opmap["BINARY_OP"]
HOT = {dis.opmap[n] for n in ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR",
                              "DELETE_ATTR", "STORE_DEREF") if n in dis.opmap}


# writes that other callers may see: attributes and globals (plain constructors apart)
SHARED = {dis.opmap[n] for n in ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_GLOBAL") if n in dis.opmap}


# ------------------------------------------------------------------ where an abort may strike
# CPython delivers interrupts so that `with` is always left through its exit, and `x(); try: ... finally: undo()` is the
# accepted way to write undoable work; aborts are therefore not placed into the set-up and clean-up of such blocks but
# postponed to the next instruction outside them.
_lines, _safe = {}, {}


def _protected_lines(path):
    """-> line ranges in which no abort is placed: (statement before a try-finally, `try:` lines, finally and re-raising catch-all bodies),
    names of context manager methods."""
    v = _lines.get(path)
    if v is None:
        rng, withs = [], []
        try:
            fd = os.open(path, os.O_RDONLY)
            src = b""
            while d := os.read(fd, 1 << 16):
                src += d
            os.close(fd)
            tree = ast.parse(src)
        except Exception:
            tree = ast.Module(body=[], type_ignores=[])

        def catch_all(h):
            names = [n.id for n in ([h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else getattr(h.type, "elts", []))
                     if isinstance(n, ast.Name)]
            return (h.type is None or "BaseException" in names) and any(isinstance(x, ast.Raise) for x in ast.walk(h))
        for n in ast.walk(tree):
            for f in ("body", "orelse", "finalbody", "handlers"):
                b = getattr(n, f, None)
                if not isinstance(b, list):
                    continue
                for i, st in enumerate(b):
                    if isinstance(st, ast.Try) and (st.finalbody or any(catch_all(h) for h in st.handlers)):
                        rng.append((st.lineno, st.lineno))
                        if i and not isinstance(b[i - 1], (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.FunctionDef)):
                            rng.append((b[i - 1].lineno, b[i - 1].end_lineno))
            if isinstance(n, ast.Try):
                for x in n.finalbody:
                    rng.append((x.lineno, x.end_lineno))
                for h in n.handlers:
                    if catch_all(h):
                        rng.append((h.lineno, h.end_lineno))
            if isinstance(n, (ast.With, ast.AsyncWith)):
                # the header: entering and leaving carry its positions, the body its own
                withs.append((n.lineno, n.body[0].lineno - 1 if n.body[0].lineno > n.lineno else n.lineno))
        v = _lines[path] = rng + withs
    return v


_guard = {}


def guarded(code, off):
    """Inside a try body with a handler (where a careless handler would swallow an abort)."""
    g = _guard.get(code)
    if g is None:
        g = set()
        if code.co_exceptiontable:
            try:
                g = {o for e in dis._parse_exception_table(code) if not e.lasti for o in range(e.start, e.end, 2)}
            except Exception:
                g = set()
        _guard[code] = g
    return off in g


def placeable(code, off):
    m = _safe.get(code)
    if m is None:
        if code.co_name in ("__enter__", "__exit__", "__del__"):
            m = ()
        else:
            bad = _protected_lines(code.co_filename)
            m = {}
            for i, (a, b, _, _) in enumerate(code.co_positions()):
                m[2 * i] = a is None or not any(x <= a <= y for x, y in bad)
        _safe[code] = m
    return bool(m) and m.get(off, True)


def _cb(code, off):
    s = _active
    if s is None:
        return
    t = s.cur
    if t is None or threading.get_ident() != t.ident or not t.counting:
        return
    t.ev += 1
    if s.profile is not None:
        s.note(code, off, t)
    a = t.act
    if t.pending is not None and placeable(code, off):
        x, t.pending = t.pending, None
        s.perform(t, x, code, off)
    if a is not None:
        x = a.get(t.ev)
        if x is not None:
            s.perform(t, x, code, off)
    if t.ev > s.max_ev:
        t.counting = False
        raise StepLimit()


def install():
    global _installed
    if _installed:
        return
    M = sys.monitoring
    M.use_tool_id(TOOL, "dst")
    M.register_callback(TOOL, E.INSTRUCTION, _cb)
    for c in boot.CODES:
        M.set_local_events(TOOL, c, E.INSTRUCTION)
    _installed = True


class T:
    def __init__(self, idx, body):
        self.idx, self.body = idx, body
        self.ident = None
        self.ev = 0
        self.act = None
        self.op = -1
        self.counting = False
        self.pending = None
        self.done = False
        self.blocked = None
        self.sem = threading.Semaphore(0)
        self.error = None


class Sim:
    """bodies: list of callables body(thread).  preempt: [[t, op, event, to]], fault: [[t, op, event, exc]]."""

    def __init__(self, bodies, preempt=(), fault=(), max_ev=3_000_000, profile=False):
        install()
        self.profile = {} if profile else None
        self._prev_hot = self._prev_shared = False
        self.shared, self.guarded = [], []
        self.watch, self.temps = None, []
        self.threads = [T(i, b) for i, b in enumerate(bodies)]
        self.cur = None
        self.max_ev = max_ev
        self.plan = {}
        for t, op, ev, to in preempt:
            self.plan.setdefault((t, op), {}).setdefault(ev, []).append(("switch", to))
        for t, op, ev, exc in fault:
            self.plan.setdefault((t, op), {}).setdefault(ev, []).append(("abort", exc))
        self.switches = 0
        self.fired = {}
        self.trace = []
        self.total_events = 0
        self.deadlock = None
        self.main = threading.Semaphore(0)

    def note(self, code, off, t):
        """Profile: remember the events right after an instruction that writes to the heap or calls out."""
        if self.watch is not None and self.watch(t.ev):
            self.temps.append(t.ev)
        if self._prev_hot:
            self.profile.setdefault(t.op, []).append(t.ev)
        if code.co_exceptiontable and guarded(code, off):
            self.guarded.append(t.ev)
        if self._prev_shared:
            self.shared.append(t.ev)
        c = _CODE.get(code)
        if c is None:
            c = _CODE[code] = code.co_code
        o = c[off]
        self._prev_shared = o in SHARED and code.co_name != "__init__"
        self._prev_hot = o in HOT or (o == BINARY_OP and c[off + 1] >= 13)

    # -- called by thread bodies
    def begin(self, t, op):
        t.op = op
        t.ev = 0
        t.pending = None
        t.act = self.plan.get((t.idx, op))
        self.trace.append(("b", t.idx, op))
        if t.act and 0 in t.act:
            self.perform(t, t.act[0], None, 0, only="switch")
        t.counting = True

    def end(self, t):
        t.counting = False
        self.total_events += t.ev
        self.trace.append(("e", t.idx, t.op, t.ev))
        return t.ev

    def perform(self, t, actions, code, off, only=None):
        for kind, arg in actions:
            if only and kind != only:
                continue
            if kind == "switch":
                to = self.threads[arg % len(self.threads)]
                if to is t or to.done or to.blocked is not None:
                    continue
                self.switches += 1
                self.trace.append(("s", t.idx, t.op, t.ev, to.idx))
                self._switch(t, to)
            elif arg != "Crash" and code is not None and not placeable(code, off):
                t.pending = [(kind, arg)]
            else:
                self.fired[arg] = self.fired.get(arg, 0) + 1
                self.trace.append(("f", t.idx, t.op, t.ev, arg))
                if arg == "Crash":
                    self.on_crash()
                raise INJ[arg]("injected")

    # -- locks created by the package
    def current_managed(self):
        t = self.cur
        return t if t is not None and threading.get_ident() == t.ident else None

    def block_on(self, t, lock):
        t.blocked = lock
        to = self._next()
        if to is None:
            t.blocked = None
            self.deadlock = (t.idx, t.op)
            raise Deadlock("all callers wait for a lock")
        self.trace.append(("w", t.idx, t.op, to.idx))
        self._switch(t, to)

    def stall(self, t, to, what):
        """Called by a seam: the call t is in takes long, another thread runs meanwhile."""
        q = self.threads[to % len(self.threads)]
        if q is t or q.done or q.blocked is not None:
            return False
        self.switches += 1
        self.trace.append(("s", t.idx, t.op, what, q.idx))
        c = t.counting
        t.counting = False
        self._switch(t, q)
        t.counting = c
        return True

    def unblock(self, lock):
        for t in self.threads:
            if t.blocked is lock:
                t.blocked = None

    def _next(self):
        for t in self.threads:
            if not t.done and t.blocked is None:
                return t
        return None

    def _switch(self, t, to):
        self.cur = to
        to.sem.release()
        t.sem.acquire()
        self.cur = t

    def _main_of(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        self.cur = t
        try:
            t.body(t)
        except BaseException as e:  # bodies handle their own errors; anything here is the harness's
            t.error = e
        t.counting = False
        t.done = True
        nxt = self._next()
        if nxt is None:
            left = [q for q in self.threads if not q.done]
            if left:
                self.deadlock = self.deadlock or (left[0].idx, left[0].op)
            self.cur = None
            self.main.release()
        else:
            self.cur = nxt
            nxt.sem.release()

    def run(self, timeout=120, on_main=False):
        """on_main: caller 0 is the calling (the process's main) thread itself"""
        global _active
        _active = self
        boot.SEAMS.lock_owner = self
        ths = [threading.Thread(target=self._main_of, args=(t,), daemon=True) for t in self.threads[on_main:]]
        for h in ths:
            h.start()
        self.threads[0].sem.release()
        if on_main:
            self._main_of(self.threads[0])
        ok = self.main.acquire(timeout=timeout)
        _active = None
        boot.SEAMS.lock_owner = None
        if not ok:
            raise RuntimeError("simulation stalled (thread blocked outside the simulator's control)")
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def digest(self):
        return hashlib.sha1(repr(self.trace).encode()).hexdigest()[:16]

    def interleaving(self):
        return hashlib.sha1(repr([x for x in self.trace if x[0] in "swf"]).encode()).hexdigest()[:16]
