"""The exploration runtime shared by all checks.

A check module defines
    LEVEL, TECHNIQUE, NOTE, RULE, ASSUMPTIONS
    explore(ctx)         enumerate the bounded space, by calling ctx.each(...) / ctx.bfs(...)
    replay(ctx, case)    execute one case again

A *case* is a JSON-able description of one execution (operation list, schedule, input, program). Case
functions execute it on the real code and report disagreements through ctx.fail(sig, message).
`sig` identifies the failing call site / input class, and is what the known-findings file refers to.
"""
import hashlib
import itertools
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.txt"


def load_known(pid):
    """Lines `finding: property=<id> sig=<sig> :: text`. `fixed:` lines are records and suppress nothing."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                prop, _, sig = head.partition(" sig=")
                if prop == f"property={pid}":
                    out[sig.strip()] = text.strip()
    return out


class CaseTimeout(BaseException):
    pass


def digest(obj):
    """64-bit digest of an observation; arrays by dtype, shape and content."""
    h = hashlib.blake2b(digest_size=8)
    _feed(h, obj)
    return int.from_bytes(h.digest(), "big")


def _feed(h, o):
    import numpy as np

    if isinstance(o, np.ndarray):
        h.update(f"A{o.dtype}{o.shape}".encode())
        if o.dtype == object:
            for x in o.ravel():
                _feed(h, x)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b"L%d" % len(o))
        for x in o:
            _feed(h, x)
    elif isinstance(o, dict):
        h.update(b"D%d" % len(o))
        for k in sorted(o, key=repr):
            h.update(repr(k).encode())
            _feed(h, o[k])
    elif isinstance(o, (bytes, bytearray)):
        h.update(b"B")
        h.update(o)
    else:
        h.update(repr(o).encode())


class Ctx:
    def __init__(self, pid, tier, seed, module=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.known = load_known(pid)
        self.states = set()
        self.transitions = 0
        self.cases = 0
        self.outcomes = set()
        self.samples = []
        self.fails = {}  # sig -> [count, message, case, family]
        self.notes = {}
        self.case = None
        self.family = None
        self.capped = []
        self.t0 = time.time()
        self.workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        self.replaying = False

    # ---- counters -------------------------------------------------------------------------------
    def step(self, n=1):
        self.transitions += n

    def seen(self, obj):
        """Register a reached state / observation; True when it is new (in this process)."""
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def note(self, k, v=1):
        if isinstance(v, (int, float)):
            self.notes[k] = self.notes.get(k, 0) + v
        else:
            self.notes[k] = v

    def fail(self, sig, message, case=None):
        sig = " ".join(str(sig).split())
        e = self.fails.get(sig)
        if e is None:
            self.fails[sig] = [1, str(message)[:4000], self.case if case is None else case, self.family]
        else:
            e[0] += 1

    def require(self, cond, sig, message=""):
        if not cond:
            self.fail(sig, message() if callable(message) else message)
        return bool(cond)

    @property
    def unexpected(self):
        return [s for s in self.fails if s not in self.known]

    # ---- running cases --------------------------------------------------------------------------
    def run_case(self, family, fn, case, timeout=60):
        self.case, self.family = case, family
        self.cases += 1
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(timeout)
        try:
            fn(self, case)
        except CaseTimeout:
            self.fail(f"{family}:timeout", f"case did not finish within {timeout} s: {case!r}")
        except MemoryError:
            self.fail(f"{family}:memory", f"case ran out of memory: {case!r}")
        except BaseException as e:  # an error the property does not allow
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.format_exc()
            what = f":{case[0]}" if isinstance(case, (tuple, list)) and case and isinstance(case[0], str) else ""
            self.fail(f"{family}{what}:raised:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}\n{tb[-2500:]}\ncase: {case!r}")
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def each(self, family, cases, fn, parallel=True, timeout=60, max_fail=int(os.environ.get("VERIF_MAX_FAIL", "25"))):
        """Run fn on every case of the (deterministic, re-iterable) enumeration `cases()`."""
        t = time.time()
        n0 = self.cases
        if not parallel or self.workers <= 1:
            for i, case in enumerate(cases()):
                if i < 2:
                    self.add_sample(family, case)
                self.run_case(family, fn, case, timeout)
                if len(self.unexpected) >= max_fail:
                    self.capped.append(f"{family}: stopped after {max_fail} distinct violations")
                    break
        else:
            self._parallel(family, cases, fn, timeout, max_fail)
        self.notes[f"cases[{family}]"] = self.notes.get(f"cases[{family}]", 0) + self.cases - n0
        self.notes[f"wall_s[{family}]"] = round(time.time() - t, 2)

    def add_sample(self, family, case):
        if len(self.samples) < 40:
            self.samples.append({"family": family, "case": _jsonable(case)})

    def _parallel(self, family, cases, fn, timeout, max_fail):
        sys.stdout.flush()
        sys.stderr.flush()
        n = self.workers
        # one shared slot per worker: index of the case being run (-1: none, -2: finished)
        shm = mmap.mmap(-1, 8 * n)
        pids, files = [], []
        for k in range(n):
            shm[8 * k:8 * k + 8] = struct.pack("q", -1)
            fd, path = tempfile.mkstemp(prefix="verif-w-")
            os.close(fd)
            files.append(path)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    self._worker(k, n, shm, path, family, cases, fn, timeout, max_fail)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        for k, pid in enumerate(pids):
            _, status = os.waitpid(pid, 0)
            at = struct.unpack("q", shm[8 * k:8 * k + 8])[0]
            res = None
            try:
                with open(files[k], "rb") as f:
                    data = f.read()
                if data:
                    res = pickle.loads(data)
            finally:
                os.unlink(files[k])
            if res is not None:
                self._merge(res)
            if at != -2:  # died inside a case
                case = next(itertools.islice(cases(), at, None), None) if at >= 0 else None
                how = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit {os.WEXITSTATUS(status)}"
                if at < 0:
                    raise RuntimeError(f"{family}: a worker ended with {how} outside of any case")
                self.fail(f"{family}:crash", f"the process running this case died ({how})", case=case)
                self.fails[f"{family}:crash"][3] = family
        shm.close()

    def _worker(self, k, n, shm, path, family, cases, fn, timeout, max_fail):
        sub = Ctx(self.pid, self.tier, self.seed)
        sub.workers = 1
        for i, case in enumerate(cases()):
            if i % n != k:
                continue
            shm[8 * k:8 * k + 8] = struct.pack("q", i)
            if i < 2:
                sub.add_sample(family, case)
            sub.run_case(family, fn, case, timeout)
            if len(sub.unexpected) >= max_fail:
                sub.capped.append(f"{family}: a worker stopped after {max_fail} distinct violations")
                break
        with open(path, "wb") as f:
            pickle.dump(dict(states=sub.states, transitions=sub.transitions, cases=sub.cases, outcomes=sub.outcomes,
                             samples=sub.samples, fails=sub.fails, notes=sub.notes, capped=sub.capped), f)
        shm[8 * k:8 * k + 8] = struct.pack("q", -2)

    def _merge(self, r):
        self.states |= r["states"]
        self.outcomes |= r["outcomes"]
        self.transitions += r["transitions"]
        self.cases += r["cases"]
        self.capped += r["capped"]
        for s in r["samples"]:
            if len(self.samples) < 40:
                self.samples.append(s)
        for k, v in r["notes"].items():
            self.note(k, v)
        for sig, (c, m, case, fam) in r["fails"].items():
            if sig in self.fails:
                e = self.fails[sig]
                e[0] += c
                if len(repr(case)) < len(repr(e[2])):
                    e[1], e[2], e[3] = m, case, fam
            else:
                self.fails[sig] = [c, m, case, fam]


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _jsonable(o):
    try:
        json.dumps(o)
        return o
    except TypeError:
        return repr(o)[:500]


def main(pid, module, tier, seed, replay=None, verbose=False):
    ctx = Ctx(pid, tier, seed)
    if replay:
        data = json.loads(Path(replay).read_text())
        ctx.replaying = True
        ctx.workers = 1
        fam, case = data["family"], _tuplify(data["case"])
        module.replay(ctx, fam, case)
    else:
        module.explore(ctx)
    wall = time.time() - ctx.t0
    bad = ctx.unexpected
    rc = 1 if bad else 0
    for sig in ctx.known:
        if sig in ctx.fails:
            print(f"KNOWN-FINDING: property={pid} {ctx.known[sig]} [{sig}; {ctx.fails[sig][0]} executions]")
    paths = []
    if bad and not replay:
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        for i, sig in enumerate(bad[:10]):
            c, m, case, fam = ctx.fails[sig]
            p = d / f"{pid}-{hashlib.sha1(sig.encode()).hexdigest()[:10]}.json"
            p.write_text(json.dumps({"property": pid, "family": fam, "sig": sig, "case": _jsonable(case), "executions": c,
                                     "message": m, "replay_cmd": f"/verif/check {pid} --replay {p}"}, indent=1))
            paths.append(p)
    for i, sig in enumerate(bad[:10] if not verbose else bad):
        c, m, case, fam = ctx.fails[sig]
        print(f"--- {sig} ({c} executions)\n{m}\n    case: {case!r}"[: (100000 if verbose else 3000)])
        print(f"VIOLATION property={pid} replay={paths[i] if i < len(paths) else replay}")
    if not replay:
        cov = {
            "states": len(ctx.states),
            "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.cases,
            "distinct_outcomes": len(ctx.outcomes),
            "exhaustive": not ctx.capped,
            "rule": getattr(module, "RULE", ""),
            "samples": ctx.samples[:12] or [{"note": "no sample"}],
            "details": {k: ctx.notes[k] for k in sorted(ctx.notes)},
        }
        if getattr(module, "LEVEL", "model_checking") != "model_checking":
            cov["evaluations"] = ctx.cases
            cov["distinct_nontrivial"] = len(ctx.states)
        if ctx.capped:
            cov["capped"] = ctx.capped
        from . import target

        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "model_checking"),
            "coverage": cov, "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + [f"extension modules: {target.INFO.get('native')}"],
            "wall_s": round(wall, 2), "violations": len(bad),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid} {tier}: states={len(ctx.states)} transitions={ctx.transitions} executions={ctx.cases} "
          f"outcomes={len(ctx.outcomes)} violations={len(bad)} wall={wall:.1f}s")
    if verbose:
        for k in sorted(ctx.notes):
            print("   ", k, ctx.notes[k])
    return rc


def _tuplify(o):
    if isinstance(o, list):
        return tuple(_tuplify(x) for x in o)
    if isinstance(o, dict):
        return {k: _tuplify(v) for k, v in o.items()}
    return o
