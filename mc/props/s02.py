"""S02: concurrent writers never corrupt the output file (all schedules up to a deviation bound)."""
import pathlib
import threading
from .. import sched, fsfault
from ..env import *
from ..core import scratch
from ..tensors import fill, make

META = streaming.TensorMetadata


def plan(name):
    """Per-thread write lists."""
    f = lambda n, salt, dt=torch.uint8: fill((n,), dt, salt)
    return {
        "2x2": [[("a0", f(5, 1)), ("a1", f(7, 2))], [("b0", f(6, 3)), ("b1", f(4, 4))]],
        "2x2big": [[("a0", f(3, 1)), ("a1", f(21, 2, torch.float16))], [("b0", f(9, 3, torch.float32)), ("b1", f(2, 4))]],
        "2x3": [[("a0", f(2, 1)), ("a1", f(3, 2)), ("a2", f(9, 5))], [("b0", f(4, 3)), ("b1", f(0, 4)), ("b2", f(5, 6))]],
        "2x1": [[("a0", f(5, 1))], [("b0", f(6, 3))]],
        "3x1": [[("a0", f(5, 1))], [("b0", f(6, 3))], [("c0", f(7, 8))]],
        "3x2": [[("a0", f(5, 1)), ("a1", f(4, 2))], [("b0", f(6, 3)), ("b1", f(3, 2))], [("c0", f(7, 8)), ("c1", f(2, 2))]],
        "1+3": [[("a0", f(3, 1)), ("a1", f(5, 2)), ("a2", f(2, 9))], [("b0", make((3, 2), torch.float32, "transposed", 3))]],
    }[name]


def schedules(case, s):
    path = pathlib.Path(scratch()) / "s02.safetensors"
    work = plan(case["plan"])
    want = {k: fingerprint(v) for l in work for k, v in l}
    header = {k: META(v.shape, v.dtype) for l in work for k, v in l} if case["header"] else {}

    def run():
        def body():
            out = streaming.OutSafetensorsDict(path, header, "r", case["buffer"])
            errors = []

            def writer(items):
                try:
                    for k, v in items:
                        out[k] = v
                except Exception as e:
                    errors.append(e)

            threads = [threading.Thread(target=writer, args=(l,)) for l in work]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            if errors:
                raise errors[0]
            out.close()
        return body

    def judge(res):
        if res.error is not None:
            return "error", f"a writer failed: {res.error!r}"
        data = path.read_bytes()
        s.state(data)
        try:
            got, _ = parse_safetensors(data)
        except BadFile as e:
            return "malformed", f"the file is malformed: {e}"
        if got != want:
            return "content", f"file differs: {sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))}"

    sched.instrument([streaming], instructions=case.get("instructions", False))
    with fsfault.Layer(scratch()):
        if "schedule" in case:
            r = sched.execute(run(), [tuple(x) for x in case["schedule"]])
            bad = r.problem or judge(r)
            if bad:
                s.violation(bad[0], bad[1])
            return
        n = sched.explore(run, judge, s, case["bound"], case["slice"])
    s.count("schedules", n)
    s.sample({k: case[k] for k in ("plan", "buffer", "bound", "header")})


PARTS = {"schedules": schedules}


def run(ck):
    J = 16
    confs = []
    if ck.thorough:
        for p, bound in (("2x2", 3), ("2x1", 4), ("2x2big", 2), ("2x3", 2), ("1+3", 2), ("3x1", 2), ("3x2", 2)):
            for buf in (0, 8, 16, 100):
                confs.append((p, buf, bound, buf != 8, False))
        confs += [("2x1", 8, 2, True, True), ("2x2", 8, 1, True, True), ("3x1", 0, 1, True, True)]
        J = 64
    else:
        for p, bufs, bound in (("2x2", (0, 8, 100), 2), ("2x1", (0, 16), 2), ("2x2big", (0, 10), 1), ("1+3", (8,), 1), ("3x1", (0, 8), 1), ("2x3", (6,), 1), ("3x2", (12,), 1)):
            confs += [(p, b, bound, b != 8, False) for b in bufs]
        confs += [("2x1", 8, 1, True, True)]
    cases = [{"plan": p, "buffer": b, "bound": d, "header": h, "instructions": ins, "slice": [j, J]} for p, b, d, h, ins in confs for j in range(J)]
    ck.bounds = {"configurations": [list(c) for c in confs], "columns": ["plan", "buffer", "deviations", "declared header", "bytecode level"]}
    ck.rule = "every schedule within the deviation bound is executed on the real writer; states are joint control states and file images"
    ck.assumptions = ["switches happen at lines of the streaming module, around file operations and at blocking operations (plus at every bytecode in the marked configurations)"]
    ck.cases("schedules", schedules, cases, chunk=1, limit=600)
