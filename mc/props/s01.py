"""S01: a saved model file holds exactly the tensors written to it."""
import itertools
import os
import pathlib
import safetensors
from ..env import *
from ..core import scratch, h64
from ..tensors import SHAPES, LAYOUTS, make, fill

META = streaming.TensorMetadata
NAMES = [["a", "b", "c", "d"], ["k.0.weight", "é\u4e2d\n\"q\\", "x" * 70, " "], ["b", "a", "", "__m"]]
RECIPES = [None, "version 0.1.0\nmodel \"a\\\\b\" model_config=null", "é\u4e2d\U0001f600"]


def header_for(kind, named):
    if kind == "exact":
        return {k: META(t.shape, t.dtype) for k, t in named}
    if kind == "empty":
        return {}
    if kind == "unknown":   # neither shape nor dtype known
        return {k: META(None, None) for k, t in named}
    if kind == "first":
        return {k: META(t.shape, t.dtype) for k, t in named[:1]}
    if kind == "other_dtype":
        return {k: META(t.shape, torch.float64) for k, t in named}
    if kind == "more":
        return {**{k: META(t.shape, t.dtype) for k, t in named}, "zz": META([7, 7], torch.float32)}
    if kind == "smaller":   # underestimates the header a little
        return {k: META([], torch.int8) for k, t in named}
    raise ValueError(kind)


HEADERS = ["exact", "empty", "unknown", "first", "other_dtype", "more", "smaller"]


def save_and_check(named, header_kind, buffer, recipe, s, path):
    want = {k: fingerprint(t) for k, t in named}
    out = streaming.OutSafetensorsDict(path, header_for(header_kind, named), recipe, buffer)
    for k, t in named:
        before = fingerprint(t)
        out[k] = t
        s.step()
    out.close()
    del out
    data = path.read_bytes()
    s.trace()
    s.state(data)
    try:
        got, meta = parse_safetensors(data)
    except BadFile as e:
        return s.violation("malformed", f"{e}; tensors {[(k, f[0], f[1]) for k, f in want.items()]} buffer={buffer} header={header_kind}")
    if got != want:
        bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        return s.violation("content", f"file differs from what was written (got, want): {bad}; buffer={buffer} header={header_kind}")
    if meta != ({"mecha_recipe": recipe} if recipe is not None else {}):
        return s.violation("metadata", f"metadata {meta!r}, wrote recipe {recipe!r}")
    try:
        lib = {k: (v["dtype"], tuple(v["shape"]), bytes(v["data"]).hex()) for k, v in safetensors.deserialize(data)}
    except Exception as e:
        return s.violation("library", f"the safetensors library rejects the file: {e!r}")
    if {k: (v[1], v[2]) for k, v in lib.items()} != {k: (v[1], v[2]) for k, v in want.items()}:
        s.violation("library", "the safetensors library reads other values")


def single(case, s):
    """One tensor: dtype x shape x layout x buffer x declared header."""
    dt = DT[case["dtype"]]
    path = pathlib.Path(scratch()) / "s01.safetensors"
    n = 0
    for shape in SHAPES:
        for layout in LAYOUTS:
            t = make(shape, dt, layout)
            if t is None:
                continue
            size = t.numel() * t.element_size()
            for buffer in sorted({0, 1, max(0, size - 1), size, size + 1, 64}):
                for hk in HEADERS:
                    n += 1
                    save_and_check([("t", t)], hk, buffer, RECIPES[n % 3], s, path)
        if len(s.violations) > 20:
            return
    s.count("cases", n)
    s.sample({"dtype": case["dtype"], "shapes": [list(x) for x in SHAPES], "layouts": LAYOUTS, "saves": n})


def catalogue():
    return [fill((), torch.float32, 1), fill((3,), torch.float16, 2), make((2, 3), torch.float64, "transposed", 3),
            fill((0,), torch.int8, 4), fill((5,), torch.uint8, 5), make((4,), torch.bfloat16, "strided", 6),
            fill((2, 2), torch.bool, 7)]


def sequence(case, s):
    """Histories of several writes: the order and buffer boundaries matter."""
    path = pathlib.Path(scratch()) / "s01.safetensors"
    cat = catalogue()
    idx = case["seq"]
    n = 0
    for names in NAMES:
        named = list(zip(names, (cat[i] for i in idx)))
        for buffer in case["buffers"]:
            for hk in case["headers"]:
                n += 1
                save_and_check(named, hk, buffer, RECIPES[(n + sum(idx)) % 3], s, path)
    s.count("cases", n)
    s.sample({"writes": [[str(cat[i].dtype), list(cat[i].shape)] for i in idx], "buffers": case["buffers"]})


def through_merge(case, s):
    """The same through merge(): tensors of one in-memory model saved without conversion."""
    dt = DT[case["dtype"]]
    path = pathlib.Path(scratch()) / "s01m.safetensors"
    sd = {}
    for i, (shape, layout) in enumerate(itertools.product(SHAPES, LAYOUTS)):
        t = make(shape, dt, layout, i)
        if t is not None:
            sd[f"k{i}"] = t
    for threads in (0, 1, 3):
        for buf in (0, 40, 2 ** 20):
            sd_mecha.merge(sd_mecha.model(sd), merge_dtype=None, merge_device=None, output_dtype=None, output_device=None,
                           threads=threads, total_buffer_size=buf, output=path, check_finite=False, tqdm=NoBar,
                           strict_weight_space=False)
            s.step(len(sd))
            s.trace()
            data = path.read_bytes()
            s.state(data)
            try:
                got, meta = parse_safetensors(data)
            except BadFile as e:
                s.violation("malformed", f"merge(threads={threads}, buffer={buf}) wrote a bad file: {e}")
                continue
            if got != prints(sd):
                s.violation("content", f"merge(threads={threads}, buffer={buf}) of {case['dtype']} wrote other tensors: "
                            f"{[k for k in set(got) | set(sd) if got.get(k) != fingerprint(sd[k])][:5] if set(got) <= set(sd) else sorted(set(got) ^ set(sd))}")


def large(case, s):
    """Many tensors, large tensors, long names, long recipes."""
    path = pathlib.Path(scratch()) / "s01l.safetensors"
    named = []
    for i in range(case["count"]):
        t = make(case["shapes"][i % len(case["shapes"])], DT[case["dtypes"][i % len(case["dtypes"])]], LAYOUTS[i % 3] if case["layouts"] else "plain", i)
        named.append((f"k{i}." + "n" * (case["name"] * (i % 3) // 2), t if t is not None else fill((2,), torch.float32, i)))
    if case["order"]:
        named = named[::-1] if case["order"] == 1 else named[1::2] + named[::2]
    for buffer in case["buffers"]:
        for hk in case["headers"]:
            save_and_check(named, hk, buffer, case["recipe"] * "a\"\n", s, path)
    s.sample({k: v for k, v in case.items() if k != "shapes"})


def large_cases(T):
    cases = []
    for n in (100, 700, 2500) if T else (100, 700):     # many small tensors
        for order in (0, 1, 2):
            cases.append(dict(count=n, shapes=[(1,), (2,), (), (3, 2)], dtypes=["F32", "U8", "BF16"], layouts=False, name=40, order=order, recipe=0,
                              buffers=[0, 7, 300, 4096, 2 ** 16, 2 ** 22], headers=HEADERS if T else ["exact", "empty", "smaller"]))
    for shape in [(1023,), (1025,), (64, 65), (300, 257), (70000,), (2 ** 18 + 1,)] + ([(3000, 1111)] if T else []):   # large ones
        for dt in ("F32", "BF16", "U8", "I64"):
            cases.append(dict(count=3, shapes=[shape, shape[::-1], (3,)], dtypes=[dt], layouts=True, name=0, order=0, recipe=0,
                              buffers=[0, 1000, 2 ** 16, 2 ** 20, 2 ** 24], headers=["exact", "empty"]))
    for name, recipe in ((500, 0), (5000, 100), (10, 40000), (100000, 3)):     # headers much longer than any estimate
        cases.append(dict(count=5, shapes=[(1,), (33,)], dtypes=["F32", "I8"], layouts=False, name=name, order=0, recipe=recipe,
                          buffers=[0, 64, 1000, 2 ** 20], headers=HEADERS))
    return cases


PARTS = {"single": single, "sequence": sequence, "through_merge": through_merge, "large": large}


def run(ck):
    ck.rule = ("every write history within the bounds is executed on the real writer; the file is parsed by a strict reference "
               "parser and the safetensors library; states are distinct file images")
    ck.assumptions = ["file operations complete fully here (short transfers are S06)", "one writer thread (several are S02)"]
    ck.cases("single", single, [{"dtype": d} for d in DT], chunk=1)
    n = len(catalogue())
    depth = 4 if ck.thorough else 3
    buffers = [0, 1, 3, 4, 6, 8, 10, 13, 48, 100] if ck.thorough else [0, 1, 4, 6, 9, 48, 100]
    headers = HEADERS if ck.thorough else ["exact", "empty", "first", "more"]
    seqs = [list(q) for d in range(0, depth + 1) for q in itertools.product(range(n), repeat=d)]
    if not ck.thorough:
        seqs = [q for q in seqs if len(set(q)) == len(q)]
    ck.bounds = {"writes": depth, "catalogue": n, "buffers": buffers, "headers": headers, "dtypes": len(DT),
                 "shapes": len(SHAPES), "layouts": len(LAYOUTS)}
    ck.cases("sequence", sequence, [{"seq": q, "buffers": buffers, "headers": headers} for q in seqs])
    ck.cases("through_merge", through_merge, [{"dtype": d} for d in DT], chunk=1)
    ck.cases("large", large, large_cases(ck.thorough), chunk=1, limit=600)
