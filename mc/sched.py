"""A controlled scheduler for real Python threads running thinc code.

Every thread is traced; before each line or each bytecode instruction (of the selected files) that may touch shared state it
passes a scheduling point. Exactly one thread runs at a time. A plan {step: thread} says where to preempt; otherwise a
thread runs until it finishes or has to wait for a lock. Locks found in the modules of the package are replaced by ones the
scheduler knows, so that waiting for a preempted owner switches threads instead of hanging.
"""
import dis
import sys
import threading
import types

_REAL_LOCK = threading.Lock
_LOCK_TYPES = (type(threading.Lock()), type(threading.RLock()))
ACTIVE = None

# instructions that only touch the frame's own stack and variables
LOCAL = {"LOAD_FAST", "LOAD_CONST", "STORE_FAST", "POP_TOP", "RESUME", "PUSH_NULL", "COPY", "SWAP", "NOP", "CACHE", "RETURN_VALUE", "RETURN_CONST", "JUMP_FORWARD", "JUMP_BACKWARD", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE",
         "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "KW_NAMES", "IS_OP", "EXTENDED_ARG", "BUILD_TUPLE", "MAKE_CELL", "COPY_FREE_VARS", "MAKE_FUNCTION", "GET_ITER", "END_FOR", "PUSH_EXC_INFO",
         "LOAD_CLOSURE", "BUILD_MAP", "BUILD_LIST", "LOAD_DEREF", "STORE_DEREF", "UNPACK_SEQUENCE", "RERAISE", "POP_EXCEPT", "FORMAT_VALUE", "BUILD_STRING", "BUILD_SLICE", "INSTRUMENTED_RESUME", "RETURN_GENERATOR", "CALL_INTRINSIC_1"}
_OPS = {}


def _points(code):
    p = _OPS.get(code)
    if p is None:
        p = _OPS[code] = {i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL}
    return p


class SchedLock:
    def __init__(self, reentrant):
        self.real = threading.RLock() if reentrant else _REAL_LOCK()
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.me() if s else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            s.wait(me, self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return self.real.release()
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            s.wake(self)

    def locked(self):
        return self.owner is not None or (hasattr(self.real, "locked") and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def adopt_locks(package):
    """Replace all lock objects in the package's modules and classes."""
    n = 0
    done = {}

    def wrap(v):
        if isinstance(v, _LOCK_TYPES):
            if id(v) not in done:
                done[id(v)] = (SchedLock(isinstance(v, _LOCK_TYPES[1])), v)
            return done[id(v)][0]
        return None

    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == package or name.startswith(package + ".")):
            continue
        for k, v in list(vars(mod).items()):
            w = wrap(v)
            if w is not None:
                setattr(mod, k, w)
                n += 1
            elif isinstance(v, dict) and not k.startswith("__"):
                for kk, vv in list(v.items()):
                    w = wrap(vv)
                    if w is not None:
                        v[kk] = w
            elif isinstance(v, type) and (v.__module__ or "").startswith(package):
                for kk, vv in list(vars(v).items()):
                    w = wrap(vv)
                    if w is not None:
                        setattr(v, kk, w)
                        n += 1
    return n


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Sched:
    def __init__(self, programs, plan=None, first=0, files=(), opcodes=False, timeout=20):
        self.programs, self.plan, self.files, self.opcodes = programs, dict(plan or {}), tuple(files), opcodes
        n = len(programs)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.alive, self.blocked = set(range(n)), {}
        self.current, self.first, self.steps = first, first, 0
        self.ids, self.results, self.errors = {}, [None] * n, [None] * n
        self.trace, self.abort, self.timeout = [], None, timeout
        self.switches = 0
        self._want = {}

    def me(self):
        return self.ids.get(threading.get_ident())

    # -- scheduling -------------------------------------------------------------------------------------
    def enabled(self):
        return sorted(self.alive - set(self.blocked))

    def to(self, nxt, me=None):
        self.current = nxt
        self.trace.append((self.steps, nxt))
        self.switches += 1
        self.sems[nxt].release()
        if me is not None:
            self.sems[me].acquire()
            if self.abort:
                raise _Abort

    def point(self, me):
        self.steps += 1
        t = self.plan.get(self.steps)
        if t is not None and t != me and t in self.alive and t not in self.blocked:
            self.to(t, me)

    def next(self, me):
        """The thread to run when `me` cannot: the next one in cyclic order."""
        e = self.enabled()
        n = len(self.programs)
        return min(e, key=lambda t: (t - me) % n) if e else None

    def wait(self, me, lock):
        self.blocked[me] = lock
        nxt = self.next(me)
        if nxt is None:
            self.abort = "deadlock"
            self.done.release()
            raise _Abort
        self.to(nxt, me)

    def wake(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    # -- threads -----------------------------------------------------------------------------------------
    def _trace(self, me):
        files, wanted = self.files, self._want

        def local(frame, event, arg):
            if event == "opcode":
                if frame.f_lasti in _points(frame.f_code):
                    self.point(me)
            elif event == "line" and not self.opcodes:
                self.point(me)
            return local

        def enter(frame, event, arg):
            code = frame.f_code
            w = wanted.get(code)
            if w is None:
                w = wanted[code] = any(f in code.co_filename for f in files)
            if not w:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return enter

    def _thread(self, me):
        self.ids[threading.get_ident()] = me
        self.sems[me].acquire()
        if not self.abort:
            sys.settrace(self._trace(me))
            try:
                self.results[me] = self.programs[me]()
            except _Abort:
                pass
            except BaseException as e:
                self.errors[me] = e
            finally:
                sys.settrace(None)
        self.alive.discard(me)
        self.blocked.pop(me, None)
        if self.abort:
            return
        nxt = self.next(me)
        if nxt is not None:
            self.to(nxt)
        elif self.alive:
            self.abort = "deadlock"
            self.done.release()
        else:
            self.done.release()

    def run(self):
        global ACTIVE
        assert ACTIVE is None
        ACTIVE = self
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.programs))]
        try:
            for t in ts:
                t.start()
            self.sems[self.first].release()
            if not self.done.acquire(timeout=self.timeout):
                self.abort = "stuck"
            if self.abort:
                for s in self.sems:
                    s.release()
            for t in ts:
                t.join(timeout=2)
        finally:
            ACTIVE = None
        return self


def plans(length, threads, bound):
    """All preemption plans with at most `bound` preemptions at steps 1..length."""
    yield ()
    if bound == 0:
        return
    stack = [((), 0)]
    while stack:
        pre, last = stack.pop()
        for s in range(last + 1, length + 1):
            for t in range(threads):
                p = pre + ((s, t),)
                yield p
                if len(p) < bound:
                    stack.append((p, s))
