"""S06: short, failing or missing I/O at every file operation, and inputs truncated at every length."""
import itertools
import os
import pathlib
import sys
from .. import fsfault, sched
from ..env import *
from ..core import scratch
from ..tensors import fill

LEVEL = "fault_enumeration"
sys.unraisablehook = lambda *a: None  # finalizers of outputs that could not be opened
META = streaming.TensorMetadata
READ = [1, 0.5, 7, "EMPTY", "EIO", "ENOMEM"]
WRITE = [1, 0.5, 7, "ENOSPC", "EIO"]
OPEN = ["EACCES", "EMFILE"]
END = ["EIO", "ENOSPC"]
KINDS = {"open": OPEN, "read": READ, "write": WRITE, "truncate": END, "close": END}

MODELS = {
    "mixed": {"a": fill((3,), torch.float32, 1), "b": fill((2, 2), torch.float16, 2), "c": fill((), torch.float64, 3), "d": fill((0,), torch.int8), "e": fill((9,), torch.uint8, 4)},
    "floats": {"a": fill((3,), torch.float32, 1), "b": fill((2, 2), torch.float32, 2), "c": fill((), torch.float32, 3), "d": fill((7,), torch.float32, 4)},
    "one": {"only": fill((5,), torch.float32, 6)},
    "empty": {"none": fill((0,), torch.float32), "none2": fill((2, 0), torch.float32)},
}


def plans(ops, depth):
    """Every choice of at most `depth` faults over the operations of the fault-free run."""
    single = [(i, f) for i, kind, _, size in ops for f in KINDS[kind] if not (isinstance(f, (int, float)) and kind in ("read", "write") and size < 2)]
    for d in range(1, depth + 1):
        for c in itertools.combinations(single, d):
            if len({i for i, _ in c}) == d:
                yield dict(c)


def orders(keys):
    return {"in order": keys, "reversed": keys[::-1], "again": keys + keys[::-1], "twice each": [k for k in keys for _ in (0, 1)]}


def readall(path, buffer, order):
    """[(key, fingerprint or error)] of a session that keeps going after errors."""
    out = []
    try:
        d = streaming.InSafetensorsDict(path, buffer)
    except Exception as e:
        return [("open", e)]
    try:
        for k in order:
            try:
                out.append((k, d[k]))
            except Exception as e:
                out.append((k, e))
        return [(k, fingerprint(v) if isinstance(v, torch.Tensor) else v) for k, v in out]  # tensors looked at last: earlier ones must not have changed
    finally:
        d.close()


def judge_read(got, want, s, where):
    errors = sum(isinstance(v, Exception) for _, v in got)
    for k, v in got:
        if isinstance(v, Exception):
            continue
        if v != want[k]:
            s.violation("read", f"{where}: {k} is read as {v}, the file holds {want[k]}")
    return errors


def read_faults(case, s):
    """Every read session, with every fault plan."""
    root = pathlib.Path(scratch())
    model = MODELS[case["model"]]
    want = prints(model)
    path = root / "in.safetensors"
    write_safetensors(path, model, pad=case["pad"])
    for buffer in case["buffers"]:
        for name, order in orders(list(model)).items():
            with fsfault.Layer(root) as layer:
                got = readall(path, buffer, order)
            if judge_read(got, want, s, (case["model"], buffer, name, "no fault")):
                s.violation("refused", f"reading without faults fails: {got}")
            for plan in plans(layer.ops, case["depth"]):
                with fsfault.Layer(root, plan) as lay:
                    got = readall(path, buffer, order)
                s.trace()
                s.step(len(lay.ops))
                s.evaluations += 1
                s.state((case["model"], buffer, name, str(plan), case["pad"]))
                n = judge_read(got, want, s, (case["model"], buffer, name, plan))
                s.count("errors" if n else "exact")
                if n == 0 and not lay.hit:
                    s.count("plan not reached")
    s.sample({"model": case["model"], "last plan": str(plan), "outcome": [(k, repr(v)[:40]) for k, v in got]})


def write_session(path, named, header, recipe, buffer):
    out = None
    try:
        out = streaming.OutSafetensorsDict(path, header, recipe, buffer)
        for k, t in named:
            out[k] = t
        out.close()
        return None
    except Exception as e:
        return e
    finally:
        if out is not None:
            try:
                out.__del__()
            except Exception:
                pass
            out.file = type("Closed", (), {"close": lambda self: None})()


def judge_file(path, want, s, where, error):
    """A file the library can read must be the complete model; without an error, it must be there."""
    got = None
    if path.exists():
        try:
            got = parse_safetensors(path.read_bytes())[0]
        except BadFile:
            got = None
    if error is None:
        if got != want:
            s.violation("write", f"{where}: no error, but the file holds {got}, expected {want}")
        s.count("exact")
    else:
        s.count("errors")
        if got is not None and got != want:
            s.violation("partial", f"{where}: failed with {error!r}, and left a file that holds {sorted(got)}")


def write_faults(case, s):
    root = pathlib.Path(scratch())
    path = root / "out.safetensors"
    model = MODELS[case["model"]]
    want = prints(model)
    named = list(model.items())
    for buffer in case["buffers"]:
        for hk in case["headers"]:
            header = {} if hk == "empty" else {k: META(t.shape, t.dtype) for k, t in named}
            if hk == "more":
                header["unused"] = META([100], torch.float64)
            for recipe in (None, "r" * 30):
                def session(plan):
                    if path.exists():
                        path.unlink()
                    with fsfault.Layer(root, plan) as layer:
                        e = write_session(path, named, header, recipe, buffer)
                    return layer, e
                layer, e = session({})
                judge_file(path, want, s, (case["model"], buffer, hk, "no fault"), e)
                if e is not None:
                    s.violation("refused", f"writing without faults fails: {e!r}")
                for plan in plans(layer.ops, case["depth"]):
                    lay, e = session(plan)
                    s.trace()
                    s.step(len(lay.ops))
                    s.evaluations += 1
                    s.state((case["model"], buffer, hk, recipe is None, str(plan)))
                    judge_file(path, want, s, (case["model"], buffer, hk, plan), e)
    s.sample({"model": case["model"], "buffers": case["buffers"], "faults": case["depth"]})


def merged(paths, out, case, layer_plan, root):
    """One merge of the files under a fault plan -> (layer, error or None, output mapping)."""
    a, b = paths
    recipe = sd_mecha.weighted_sum(sd_mecha.model(a), sd_mecha.model(b), alpha=0.5) if case["shape"] == "two" else sd_mecha.model(a)
    if case["shape"] == "fallback":
        recipe = sd_mecha.model(b) | sd_mecha.model(a)
    if isinstance(out, pathlib.Path) and out.exists():
        out.unlink()
    target = out if out is not None else {}
    with fsfault.Layer(root, layer_plan) as layer:
        try:
            sd_mecha.merge(recipe, threads=case["threads"], total_buffer_size=case["buffer"], output=target, tqdm=NoBar, merge_dtype=torch.float32, output_dtype=torch.float32, **case["opts"])
            error = None
        except Exception as e:
            error = e.with_traceback(None)
            error.__context__ = error.__cause__ = None
    return layer, error, target


CONF = model_configs.ModelConfigImpl("zzs-s06", {"c": {k: {"shape": list(v.shape), "dtype": "float32"} for k, v in MODELS["floats"].items()}, "ema": {}})


def inputs(root):
    m = MODELS["floats"]
    write_safetensors(root / "a.safetensors", m)
    write_safetensors(root / "b.safetensors", {k: v + 1 for k, v in m.items()})
    return root / "a.safetensors", root / "b.safetensors"


def expected(shape):
    m = MODELS["floats"]
    return prints({"one": m, "two": {k: v + 0.5 for k, v in m.items()}, "fallback": {k: v + 1 for k, v in m.items()}}[shape])


def judge_merge(case, error, out, s, where):
    want = expected(case["shape"])
    if case["to"] == "file":
        judge_file(out, want, s, where, error)
    elif error is None:
        got = prints(out)
        s.count("exact")
        if got != want:
            s.violation("merge", f"{where}: no error, but the result is {got}, expected {want}")
    else:
        s.count("errors")
        bad = {k: v for k, v in prints(out).items() if want.get(k) != v}
        if bad:
            s.violation("partial", f"{where}: failed with {error!r} after giving wrong values {bad}")


def ensure():
    try:
        model_configs.register_aux(CONF)
    except ValueError:
        pass


def merge_faults(case, s):
    ensure()
    sched.deinstrument()
    root = pathlib.Path(scratch())
    paths = inputs(root)
    out = root / "out.safetensors" if case["to"] == "file" else None

    def session(plan):
        """Threads run under the deterministic scheduler, so that a plan names the same operation every time."""
        if case["threads"] == 0:
            return merged(paths, out, case, plan, root)
        r = sched.execute(lambda: merged(paths, out, case, plan, root), [])
        if r.problem:
            raise RuntimeError(f"the merge does not end: {r.problem}")
        if r.error is not None:
            raise r.error
        return r.value
    layer, error, target = session({})
    judge_merge(case, error, target, s, (case, "no fault"))
    if error is not None:
        s.violation("refused", f"{case}: merging without faults fails: {error!r}")
    for n, plan in enumerate(plans(layer.ops, case["depth"])):
        if n % case["slice"][1] != case["slice"][0]:
            continue
        lay, error, target = session(plan)
        s.trace()
        s.step(len(lay.ops))
        s.evaluations += 1
        s.state((str({k: v for k, v in case.items() if k != "slice"}), str(plan)))
        judge_merge(case, error, target, s, ({k: case[k] for k in ("shape", "threads", "to", "buffer")}, plan))
    s.sample({k: case[k] for k in ("shape", "threads", "to", "buffer", "depth")} | {"operations": len(layer.ops)})


def truncated(case, s):
    """Every length of a truncated input file, before it is opened or just after."""
    ensure()
    root = pathlib.Path(scratch())
    model = MODELS[case["model"]]
    want = prints(model)
    path = root / "t.safetensors"
    full = write_safetensors(path, model, pad=case["pad"])
    for n in range(len(full)):
        for buffer in case["buffers"]:
            for name, order in orders(list(model)).items():
                path.write_bytes(full[:n])
                got = readall(path, buffer, order)
                s.trace()
                s.step(len(got))
                s.evaluations += 1
                s.state((case["model"], n, buffer, name, "before", case["pad"]))
                errors = judge_read(got, want, s, (case["model"], f"{n} of {len(full)} bytes", buffer, name))
                whole = sum(len(bytes.fromhex(v[2])) for v in want.values())
                if not errors and whole:  # the last tensor with content is incomplete
                    s.violation("unnoticed", f"{case['model']}: {n} of {len(full)} bytes are there, and every tensor can be read")
                # truncated while it is open
                path.write_bytes(full)
                d = streaming.InSafetensorsDict(path, buffer)
                try:
                    os.truncate(path, n)
                    got = []
                    for k in order:
                        try:
                            got.append((k, d[k]))
                        except Exception as e:
                            got.append((k, e))
                    got = [(k, fingerprint(v) if isinstance(v, torch.Tensor) else v) for k, v in got]
                finally:
                    d.close()
                s.trace()
                s.state((case["model"], n, buffer, name, "while open", case["pad"]))
                judge_read(got, want, s, (case["model"], f"cut to {n} of {len(full)} bytes while open", buffer, name))
    s.sample({"model": case["model"], "lengths": len(full), "buffers": case["buffers"]})


def merge_truncated(case, s):
    """A merge whose input is truncated at every length."""
    ensure()
    root = pathlib.Path(scratch())
    a, b = inputs(root)
    victim = {"a": a, "b": b}[case["victim"]]
    full = victim.read_bytes()
    out = root / "out.safetensors" if case["to"] == "file" else None
    for n in range(0, len(full)):
        if n % case["slice"][1] != case["slice"][0]:
            continue
        victim.write_bytes(full[:n])
        _, error, target = merged((a, b), out, case, {}, root)
        s.trace()
        s.step(1)
        s.evaluations += 1
        s.state((str({k: v for k, v in case.items() if k != "slice"}), n))
        judge_merge(case, error, target, s, ({k: case[k] for k in ("shape", "threads", "to", "victim")}, f"{n} of {len(full)} bytes"))
        if error is None and not (case["shape"] == "one" and case["victim"] == "b"):
            s.violation("unnoticed", f"{case}: the merge succeeds although {n} of {len(full)} bytes of an input are there")
    s.sample({k: case[k] for k in ("shape", "threads", "to", "victim")})


PARTS = {"read_faults": read_faults, "write_faults": write_faults, "merge_faults": merge_faults, "truncated": truncated, "merge_truncated": merge_truncated}


def run(ck):
    T = ck.thorough
    ck.rule = ("a case is one session (reads in some order, one save, one merge) with one plan of faults, or with an input cut at one length; "
               "faults are put at every file operation of the fault-free session, in every listed kind")
    ck.bounds = {"faults per session": 2, "kinds": {k: [str(f) for f in v] for k, v in KINDS.items()}}
    ck.assumptions = ["faults are injected where Python calls the operating system; disk content below that layer is not modelled"]
    buffers = [0, 5, 16, 2 ** 16] if not T else [0, 1, 3, 5, 8, 16, 33, 100, 2 ** 16]
    ck.cases("read_faults", read_faults, [{"model": m, "buffers": [b], "depth": 2 if T or b in (0, 16) else 1, "pad": p} for m in MODELS for b in buffers for p in ((0, 3) if T else (0,))], chunk=1, limit=900)
    ck.cases("write_faults", write_faults, [{"model": m, "buffers": [b], "depth": 2 if T or (m, b) in (("one", 0), ("mixed", 1000), ("mixed", 20)) else 1, "headers": [h]} for h in ("exact", "empty", "more")
                                          for m in MODELS for b in ([0, 6, 20, 1000] if not T else [0, 1, 4, 6, 12, 20, 28, 100, 1000])], chunk=1, limit=900)
    ck.cases("truncated", truncated, [{"model": m, "buffers": [b], "pad": p} for m in MODELS for b in buffers for p in (0, 3)], chunk=1)
    J = 4 if not T else 32
    ck.cases("merge_faults", merge_faults, [
        {"shape": sh, "threads": t, "to": to, "buffer": b, "opts": {}, "depth": d, "slice": [j, J if d > 1 or T else 2]}
        for sh in ("one", "two", "fallback") for t in (0, 1, 2) for to in ("file", "mapping") for b in (0, 2 ** 16)
        for d in ((1, 2) if T and t == 0 else (1,)) for j in range(J if d > 1 or T else 2)], chunk=1)
    ck.cases("merge_truncated", merge_truncated, [
        {"shape": sh, "threads": t, "to": to, "buffer": b, "victim": v, "opts": {}, "slice": [j, 4]}
        for sh in ("one", "two") for t in (0, 2) for to in ("file", "mapping") for b in (0, 2 ** 16) for v in (("a", "b") if sh == "two" else ("a",)) for j in range(4)], chunk=1)
