"""Shared machinery of the checks: evidence, violations, known findings, parallel case runner.

A check enumerates *cases* (JSON-able descriptions of one bounded execution, or of one root of an execution tree),
runs each against the real code of /repo and compares with a reference model. Workers are forked processes; every
count in the evidence is accumulated from what the workers actually executed.
"""
import gc
import hashlib
import json
import ctypes
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    """The harness could not set a case up (not a statement about the property)."""


class CaseTimeout(BaseException):
    pass


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Shard:
    """What one worker (or one case) observed."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.violations = []  # (signature, message, case)
        self.samples = []
        self.inconclusive = []
        self.counters = {}
        self.case = None

    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def cmax(self, name, n):
        name = "max_" + name
        self.counters[name] = max(self.counters.get(name, 0), n)

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, signature, message, case=None):
        if len(self.violations) < 200:
            self.violations.append((signature, str(message)[:2000], self.case if case is None else case))

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.evaluations += other.evaluations
        self.violations += other.violations
        self.inconclusive += other.inconclusive
        for s in other.samples:
            self.sample(s)
        for k, v in other.counters.items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v


_SCRATCH = None


def scratch() -> str:
    """A private directory of this process, on tmpfs when there is one."""
    global _SCRATCH
    if _SCRATCH is None or not _SCRATCH[1] == os.getpid():
        base = _root_scratch()
        _SCRATCH = (tempfile.mkdtemp(prefix=f"p{os.getpid()}-", dir=base), os.getpid())
    return _SCRATCH[0]


_ROOT = None


def _root_scratch():
    global _ROOT
    if _ROOT is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _ROOT = tempfile.mkdtemp(prefix="mc-", dir=base)
    return _ROOT


class ChildDied(Exception):
    pass


def forked(fn, *args):
    """fn(*args) in a child process forked from this one: nothing it does to the process survives."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = (True, fn(*args))
            except BaseException as e:
                out = (False, "".join(traceback.format_exception(e)[-8:])[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise ChildDied("a child process ended without a result")
    ok, out = pickle.loads(data)
    if not ok:
        raise ChildDied(out)
    return out


def cleanup_scratch():
    if _ROOT is not None:
        shutil.rmtree(_ROOT, ignore_errors=True)


def _on_alarm(signum, frame):
    raise CaseTimeout()


_FN = None
_LIMIT = 0


def _worker(conn, wrapped, deadline, room):
    """Runs the chunks it is sent; tells which case it is at, so that the parent knows what a dead worker was doing."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its parent
    try:
        size = int(open("/proc/self/statm").read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
        resource.setrlimit(resource.RLIMIT_AS, (size + room, size + room))
    except (OSError, ValueError):
        pass
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            span = conn.recv()
        except EOFError:
            break
        if span is None:
            break
        shard, done = Shard(), 0
        for i in range(*span):
            if time.time() > deadline:
                break
            conn.send(("at", i))
            run_one(_FN, wrapped[i], shard, _LIMIT)
            done += 1
        conn.send(("done", done, shard))
    os._exit(0)


class Workers:
    """A pool of forked workers that survives the death of any of them."""

    def __init__(self, wrapped, deadline, limit, n):
        self.wrapped, self.deadline, self.limit, self.n = wrapped, deadline, limit, n
        self.ctx = mp.get_context("fork")
        self.procs = {}

    def spawn(self):
        mine, theirs = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(theirs, self.wrapped, self.deadline, ROOM), daemon=False)
        p.start()
        theirs.close()
        self.procs[mine] = [p, None, None, 0.0]  # process, span, case index, since
        return mine

    def run(self, spans):
        """-> (number of cases done, shard); spans are ranges of case indices."""
        total, done = Shard(), 0
        queue = list(reversed(spans))
        deaths = 0
        try:
            for _ in range(min(self.n, len(spans))):
                self.give(self.spawn(), queue)
            while any(s[1] is not None for s in self.procs.values()):
                ready = mp.connection.wait(list(self.procs), timeout=5)
                for conn in ready:
                    st = self.procs[conn]
                    try:
                        msg = conn.recv()
                    except (EOFError, OSError):
                        st[0].join()
                        done, deaths = done + self.lost(conn, queue, total, f"the process ended with code {st[0].exitcode}", "died"), deaths + 1
                        if deaths < 40:
                            self.give(self.spawn(), queue)
                        continue
                    except Exception as e:  # an unreadable result
                        total.inconclusive.append(f"a worker's result cannot be read: {e!r}"[:400])
                        total.count("harness_errors")
                        msg = ("done", 0, Shard())
                    if msg[0] == "at":
                        st[2], st[3] = msg[1], time.time()
                    else:
                        done += msg[1]
                        total.merge(msg[2])
                        self.give(conn, queue)
                for conn, st in list(self.procs.items()):  # a case that its own alarm cannot interrupt
                    if st[1] is not None and self.limit and st[3] and time.time() - st[3] > self.limit + 30:
                        st[0].kill()
                        st[0].join()
                        done, deaths = done + self.lost(conn, queue, total, f"the case did not finish within {self.limit} s", "hang"), deaths + 1
                        if deaths < 40:
                            self.give(self.spawn(), queue)
        finally:
            for conn, st in self.procs.items():
                if st[1] is not None:
                    st[0].kill()
                else:
                    try:
                        conn.send(None)
                    except OSError:
                        pass
            for conn, st in self.procs.items():
                st[0].join(10)
                if st[0].is_alive():
                    st[0].kill()
                conn.close()
        return done, total

    def give(self, conn, queue):
        st = self.procs[conn]
        st[1], st[2], st[3] = None, None, 0.0
        if queue:
            st[1], st[3] = queue.pop(), time.time()
            conn.send(st[1])

    def lost(self, conn, queue, total, why, sig):
        """A worker is gone: blame the case it was at, and queue the rest of its chunk again."""
        _, span, at, _ = self.procs.pop(conn)
        conn.close()
        if span is None:
            return 0
        if at is None:
            queue.append(span)
            return 0
        total.case = self.wrapped[at]
        total.violation(sig, why)
        total.case = None
        for part in ((span[0], at), (at + 1, span[1])):
            if part[0] < part[1]:
                queue.append(part)
        return 1


ROOM = 4 << 30  # how much more memory a worker may map


def run_one(fn, case, shard, limit=0):
    shard.case = case
    shard.evaluations += 1
    try:
        if limit:
            signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            fn(case, shard)
        finally:
            if limit:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Inconclusive as e:
        if len(shard.inconclusive) < 20:
            shard.inconclusive.append(f"{case!r}: {e}"[:400])
        shard.count("inconclusive")
    except CaseTimeout:
        shard.violation("hang", f"the case did not finish within {limit} s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if REPO in f.filename), None)
        msg = "".join(traceback.format_exception(e)[-6:])
        if where is None and not any("torch" in f.filename or "safetensors" in f.filename for f in tb):
            shard.inconclusive.append(f"harness error on {case!r}: {msg}"[:1500])
            shard.count("harness_errors")
        else:
            shard.violation(f"unexpected-exception:{type(e).__name__}", f"unexpected exception at {where}: {msg}")
    shard.case = None


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        _root_scratch()  # before workers fork, so that it is theirs too and removed at the end
        budget = 240 if self.tier == "quick" else 3600
        self.deadline = self.t0 + float(os.environ.get("MC_BUDGET_S", budget))
        self.total = Shard()
        self.truncated = []
        self.parts = {}
        self.assumptions = []
        self.rule = ""
        self.bounds = {}
        self.workers = max(1, min(8, os.cpu_count() or 1))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def cases(self, name, fn, cases, *, limit=120, chunk=None, parallel=True):
        """Run fn(case, shard) on every case. Cases are the complete bounded space named `name`."""
        global _FN, _LIMIT
        cases = list(cases)
        if os.environ.get("MC_ONLY") and os.environ["MC_ONLY"] != name:
            return
        if chunk is None:
            chunk = max(1, min(200, len(cases) // (self.workers * 8) or 1))
        _FN, _LIMIT = (lambda c, s: fn(c["case"], s)), limit
        wrapped = [{"part": name, "case": c} for c in cases]
        spans = [(i, min(i + chunk, len(wrapped))) for i in range(0, len(wrapped), chunk)]
        done, shard = Workers(wrapped, self.deadline, limit, self.workers if parallel else 1).run(spans)
        self.add(name, shard, done, len(cases))

    def add(self, name, shard, done, total):
        self.parts[name] = {
            "cases": done, "of": total, "states": len(shard.states), "transitions": shard.transitions,
            "executions": shard.traces, **shard.counters,
        }
        if done < total:
            self.truncated.append(f"{name}: {done} of {total} cases within the time budget")
        self.total.merge(shard)

    def finish(self):
        known, listed = load_findings(self.pid)
        fresh, seen_known = {}, {}
        for sig, msg, case in self.total.violations:
            part = case["part"] if isinstance(case, dict) and "part" in case else "?"
            full = f"{part}/{sig}"
            if full in known:
                seen_known.setdefault(full, msg)
            else:
                fresh.setdefault(full, (msg, case))
        for full in sorted(seen_known):
            print(f"KNOWN-FINDING: property={self.pid} {known[full]}")
        harness_errors = self.total.counters.get("harness_errors", 0)
        for line in self.total.inconclusive[:5]:
            print(f"note: inconclusive: {line}", file=sys.stderr)
        replay_dir = os.path.join(VERIF, "replays")
        n = 0
        for full, (msg, case) in sorted(fresh.items()):
            n += 1
            if n > 10:
                break
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, f"{self.pid}-{h64(full) & 0xffffff:06x}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "signature": full, "message": msg, "case": case}, f, indent=1, default=repr)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {full}: {msg.strip().splitlines()[-1] if msg.strip() else ''}"[:600])
        cov = {
            "states": len(self.total.states),
            "transitions": self.total.transitions,
            "traces_validated_against_impl": self.total.traces,
            "evaluations": self.total.evaluations,
            "distinct_nontrivial": len(self.total.states),
            "rule": self.rule,
            "samples": self.total.samples[:4] or ["(none)"],
            "exhaustive": not self.truncated and not self.total.counters.get("inconclusive") and not harness_errors,
            "parts": self.parts,
            "bounds": self.bounds,
        }
        if self.level == "model_checking":
            del cov["evaluations"], cov["distinct_nontrivial"]
        elif self.level == "fault_enumeration":
            del cov["states"], cov["transitions"], cov["traces_validated_against_impl"]
        if self.truncated:
            cov["truncated"] = self.truncated
        if self.total.inconclusive:
            cov["inconclusive"] = self.total.inconclusive[:5]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print(f"{self.pid} [{self.tier}] executions={self.total.traces} states={len(self.total.states)} "
              f"transitions={self.total.transitions} violations={len(fresh)} known={len(seen_known)} "
              f"wall={ev['wall_s']}s" + (" TRUNCATED" if self.truncated else ""))
        if fresh:
            return 1
        if self.total.traces == 0 or harness_errors > max(3, self.total.evaluations // 2):
            print("error: nothing was explored" if self.total.traces == 0 else "error: most cases failed in the harness",
                  file=sys.stderr)
            return 2
        return 0


def load_findings(pid):
    """known_findings.txt: lines 'known: property=<id> sig=<part/signature> :: <what fails>' and 'fixed: ...'."""
    known, listed = {}, []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("known:"):
                head, _, what = line[len("known:"):].partition("::")
                fields = dict(p.split("=", 1) for p in head.split() if "=" in p)
                if fields.get("property") == pid:
                    known[fields["sig"]] = what.strip()
    return known, listed
