"""S05: an interrupted or failed save never passes for a complete model (all crash points, all failure points)."""
import itertools
import json
import pathlib
import struct
import safetensors
from .. import fsfault
from ..env import *
from ..core import scratch
from ..tensors import fill, make

LEVEL = "fault_enumeration"
META = streaming.TensorMetadata


def verdicts(image, path):
    """What each reader makes of a file image: {reader: None (refused) or tensors}."""
    out = {}
    try:
        out["strict"] = parse_safetensors(image)[0]
    except BadFile:
        out["strict"] = None
    try:
        out["library"] = {k: (v["dtype"], tuple(v["shape"]), bytes(v["data"]).hex()) for k, v in safetensors.deserialize(image)}
    except Exception:
        out["library"] = None
    path.write_bytes(image)
    try:
        d = streaming.InSafetensorsDict(path, 64)
        try:
            out["own"] = {k: fingerprint(d[k]) for k in list(d.keys())}
        finally:
            d.close()
    except Exception:
        out["own"] = None
    return out


def judge_image(image, want, s, where, probe):
    s.state(image)
    for reader, got in verdicts(image, probe).items():
        if got is None:
            s.count("refused")
            continue
        same = {k: (v[1], v[2]) for k, v in got.items()} == {k: (v[1], v[2]) for k, v in want.items()}
        if not same:
            s.violation(f"{where[0]}-{reader}", f"{where}: the {reader} reader accepts a file of {len(image)} bytes with names {sorted(got)}, "
                        f"complete would be {sorted(want)}")
        else:
            s.count("complete")


def cuts_for(full):
    def cuts(n):
        if full or n <= 40:
            return range(n + 1)
        return sorted({1, 2, 3, 7, 8, 9, n // 2, n - 9, n - 2, n - 1})
    return cuts


def write_crash(case, s):
    """The writer alone: every crash point of small write histories."""
    root = pathlib.Path(scratch())
    path, probe = root / "s05.safetensors", root / "probe.safetensors"
    cat = [fill((5,), torch.uint8, 1), fill((3,), torch.float32, 2), make((2, 3), torch.float16, "transposed", 3), fill((0,), torch.int8), fill((), torch.float64, 5)]
    named = [(f"k{i}", cat[j]) for i, j in enumerate(case["seq"])]
    want = {k: fingerprint(t) for k, t in named}
    for buffer in case["buffers"]:
        for hk in ("exact", "empty", "more"):
            header = {} if hk == "empty" else {k: META(t.shape, t.dtype) for k, t in named}
            if hk == "more":
                header["unused"] = META([100], torch.float64)
            for old in (None, "previous"):
                if path.exists():
                    path.unlink()
                if old:
                    write_safetensors(path, {"old": fill((30,), torch.uint8, 9)})
                with fsfault.Layer(root) as layer:
                    out = streaming.OutSafetensorsDict(path, header, case["recipe"], buffer)
                    for k, t in named:
                        out[k] = t
                    out.close()
                    del out
                final = path.read_bytes()
                key = str(path)
                last = None
                for pos, cut, image in fsfault.crash_images(layer.log, key, cuts_for(case["full"])):
                    s.trace()
                    s.evaluations += 1
                    last = image
                    if image is None:
                        continue
                    judge_image(image, want, s, ("crash", pos, cut, buffer, hk), probe)
                if last != final:
                    # the log does not explain the file: the harness cannot speak for this writer
                    s.inconclusive.append("the operation log does not reproduce the final file")
                    s.count("inconclusive")
    s.sample({"writes": case["seq"], "buffers": case["buffers"], "full cuts": case["full"]})


MODEL = {"a": fill((3,), torch.float32, 1), "b": fill((2, 2), torch.float32, 2), "c": fill((), torch.float32, 3), "d": fill((7,), torch.float32, 4)}


def merge_crash(case, s):
    """A whole merge to a file: every crash point of the operation log."""
    root = pathlib.Path(scratch())
    path, probe = root / "s05m.safetensors", root / "probe.safetensors"
    inp = root / "in.safetensors"
    write_safetensors(inp, MODEL)
    recipe = sd_mecha.model(inp if case["file"] else MODEL)
    for threads in (0, 1, 2):
        if path.exists():
            path.unlink()
        with fsfault.Layer(root) as layer:
            sd_mecha.merge(recipe, threads=threads, total_buffer_size=case["buffer"], output=path, tqdm=NoBar, output_dtype=torch.float32)
        want = parse_safetensors(path.read_bytes())[0]
        if {k: v for k, v in want.items()} != prints(MODEL):
            s.violation("final", "the completed merge is not exact")
        for pos, cut, image in fsfault.crash_images(layer.log, str(path), cuts_for(case["full"])):
            s.trace()
            s.evaluations += 1
            if image is not None:
                judge_image(image, want, s, ("merge-crash", pos, cut, threads), probe)
    s.sample(case)


class Boom(RuntimeError):
    pass


FAIL = {"at": None, "kind": None, "count": 0}
KINDS = {"error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit, "oserror": OSError, "memory": MemoryError}


@sd_mecha.merge_method(register=False)
def s05_fail(a: sd_mecha.Parameter(torch.Tensor), **kwargs) -> sd_mecha.Return(torch.Tensor):
    if kwargs["key"] == FAIL["at"]:
        raise KINDS[FAIL["kind"]]("planned")
    return a


class FailingBar(NoBar):
    def update(self, *a):
        FAIL["count"] += 1
        if FAIL["at"] == FAIL["count"]:
            raise KINDS[FAIL["kind"]]("planned")

    def set_postfix(self, *a, **k):
        pass


def merge_fails(case, s):
    """The merge fails at every key, in every way: what is left must not be loadable as a model."""
    root = pathlib.Path(scratch())
    path, probe = root / "s05f.safetensors", root / "probe.safetensors"
    FAIL.update(at=case["at"], kind=case["kind"], count=0)
    recipe = sd_mecha.model(MODEL)
    bar = NoBar
    if case["where"] == "method":
        recipe = s05_fail(recipe)
    else:
        bar = FailingBar
    if path.exists():
        path.unlink()
    if case["old"]:
        write_safetensors(path, {"old": fill((30,), torch.uint8, 9)})
    error = None
    try:
        sd_mecha.merge(recipe, threads=case["threads"], total_buffer_size=case["buffer"], output=path, tqdm=bar, output_dtype=torch.float32)
    except BaseException as e:
        if not isinstance(e, KINDS[case["kind"]]) or "planned" not in str(e):
            s.violation("other-error", f"the merge failed with {e!r} instead of the planned {case['kind']}")
        error = e
    s.trace()
    if error is None:
        return s.violation("no-error", f"the failure {case} did not surface")
    import gc
    error.__traceback__ = None
    del error
    gc.collect()
    if path.exists():
        judge_image(path.read_bytes(), prints(MODEL), s, ("failed-merge", case["kind"], case["at"]), probe)
    s.sample(case)


PARTS = {"write_crash": write_crash, "merge_crash": merge_crash, "merge_fails": merge_fails}


def run(ck):
    ck.rule = ("a case is one crash image (prefix of the operation log, the last write torn at a byte) or one failing merge; distinct "
               "file images are counted; every image is read by three readers")
    ck.assumptions = ["process crash: operations of the file take effect in program order; power-loss reordering is not modelled"]
    depth = 4 if ck.thorough else 3
    seqs = [list(q) for d in range(0, depth + 1) for q in itertools.product(range(5), repeat=d)]
    if not ck.thorough:
        seqs = [q for q in seqs if len(q) < 3 or len(set(q)) == 3]
    buffers = [0, 6, 16, 100] if not ck.thorough else [0, 1, 6, 12, 16, 25, 100]
    ck.bounds = {"writes": depth, "buffers": buffers, "cuts": "every byte of writes up to 40 bytes (all writes when thorough), corner cuts otherwise"}
    ck.cases("write_crash", write_crash, [{"seq": q, "buffers": buffers, "recipe": [None, "r" * 20][len(q) % 2], "full": ck.thorough} for q in seqs], chunk=1)
    ck.cases("merge_crash", merge_crash, [{"file": f, "buffer": b, "full": ck.thorough} for f in (0, 1) for b in (0, 100, 2 ** 20)], chunk=1)
    keys = list(MODEL)
    ck.cases("merge_fails", merge_fails, [
        {"where": w, "at": at, "kind": k, "threads": t, "buffer": b, "old": old}
        for w in ("method", "bar") for at in (keys if w == "method" else [1, 2, 4]) for k in KINDS for t in (0, 1, 2) for b in (0, 2 ** 20)
        for old in (False, True)], chunk=8)
