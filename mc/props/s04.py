"""S04: concurrent readers of one model get exact tensors (all schedules up to a deviation bound)."""
import pathlib
import threading
from .. import sched, fsfault
from ..env import *
from ..core import scratch
from ..tensors import fill

FILE = {"a": fill((4,), torch.uint8, 1), "b": fill((3,), torch.float32, 2), "c": fill((2, 2), torch.float16, 3), "e": fill((0,), torch.int8, 0),
        "d": fill((9,), torch.uint8, 4), "f": fill((1,), torch.float64, 5)}
PLANS = {
    "ab|cd": ["ab", "cd"], "ad|da": ["ad", "da"], "ac|ac": ["ac", "ac"], "a|d": ["a", "d"], "f|a": ["f", "a"], "aba|fdb": ["aba", "fdb"],
    "a|c|d": ["a", "c", "d"], "ab|dc|fa": ["ab", "dc", "fa"], "ax|ex": ["ax", "ex"],
}


def schedules(case, s):
    path = pathlib.Path(scratch()) / "s04.safetensors"
    write_safetensors(path, FILE)
    want = prints(FILE)

    def run():
        def body():
            model = streaming.InSafetensorsDict(path, case["buffer"])
            got = []

            def reader(keys):
                for k in keys:
                    try:
                        v = model[k]
                    except KeyError as e:
                        got.append((k, "missing", None))
                        continue
                    except Exception as e:
                        got.append((k, repr(e), None))
                        continue
                    got.append((k, fingerprint(v), v))

            threads = [threading.Thread(target=reader, args=(keys,)) for keys in PLANS[case["plan"]]]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            out = [(k, f, fingerprint(v) if v is not None else None) for k, f, v in got]
            model.close()
            return out
        return body

    def judge(res):
        if res.error is not None:
            return "error", f"{res.error!r}"
        s.state(res.value)
        if sorted(k for k, _, _ in res.value) != sorted("".join(PLANS[case["plan"]])):
            return "lost", "a read gave no answer"
        for k, first, last in res.value:
            if k not in want:
                if first != "missing":
                    return "missing", f"reading absent {k!r} gave {first}"
            elif first != want[k]:
                return "content", f"reading {k!r} gave {first}, stored {want[k]}"
            elif last != first:
                return "changed", f"the tensor returned for {k!r} changed afterwards"

    sched.instrument([streaming], instructions=case.get("instructions", False))
    with fsfault.Layer(scratch()):
        if "schedule" in case:
            r = sched.execute(run(), [tuple(x) for x in case["schedule"]])
            bad = r.problem or judge(r)
            if bad:
                s.violation(bad[0], bad[1])
            return
        n = sched.explore(run, judge, s, case["bound"], case["slice"])
    s.count("schedules", n)
    s.sample({k: case[k] for k in ("plan", "buffer", "bound")})


PARTS = {"schedules": schedules}


def run(ck):
    J = 8
    if ck.thorough:
        J = 48
        confs = [(p, b, 3 if p in ("a|d", "ab|cd", "f|a", "ad|da") else 2, False) for p in PLANS for b in (0, 5, 13, 64)]
        confs += [(p, b, 2, True) for p in ("a|d", "f|a") for b in (0, 13)] + [("ab|cd", 5, 1, True)]
    else:
        confs = [(p, b, 2, False) for p in ("ab|cd", "ad|da", "a|d", "f|a") for b in (0, 13)]
        confs += [(p, b, 1, False) for p in PLANS for b in (0, 5, 64)]
        confs += [("a|d", b, 1, True) for b in (0, 13)]
    cases = [{"plan": p, "buffer": b, "bound": d, "instructions": i, "slice": [j, J]} for p, b, d, i in confs for j in range(J)]
    ck.bounds = {"configurations": [list(c) for c in confs], "columns": ["plan", "buffer", "deviations", "bytecode level"]}
    ck.rule = "every schedule within the deviation bound is executed on the real reader; states are joint control states and result vectors"
    ck.assumptions = ["switches happen at lines of the streaming module, around file operations and at blocking operations (plus at every bytecode in the marked configurations)"]
    ck.cases("schedules", schedules, cases, chunk=1, limit=600)
