"""S03: reading a model file is exact for any access pattern (all access histories up to a depth)."""
import itertools
import json
import pathlib
import struct
from .. import fsfault
from ..env import *
from ..core import scratch
from ..tensors import fill, SHAPES

MISSING = "nope"


def raw_file(path, entries, order, meta=None, pad=0):
    """entries: {name: tensor} stored in `order`; header listed in dict order (which may differ from memory order)."""
    body, offs = b"", {}
    for k in order:
        b = tbytes(entries[k])
        offs[k] = [len(body), len(body) + len(b)]
        body += b
    header = {} if meta is None else {"__metadata__": meta}
    for k, t in entries.items():
        header[k] = {"dtype": DT_REV[t.dtype], "shape": list(t.shape), "data_offsets": offs[k]}
    raw = json.dumps(header).encode() + b" " * pad
    pathlib.Path(path).write_bytes(struct.pack("<Q", len(raw)) + raw + body)
    return len(body)


def files():
    f = fill
    small = {"a": f((4,), torch.uint8, 1), "b": f((), torch.float16, 2), "c": f((0, 3), torch.float32, 0), "d": f((3,), torch.uint8, 4)}
    mixed = {"z": f((1,), torch.float64, 1), "y": f((2, 2), torch.bfloat16, 2), "x": f((5,), torch.bool, 3), "w": f((3,), torch.int32, 4)}
    return {
        "small": (small, ["a", "b", "c", "d"], None, 0),
        "reversed": (small, ["d", "c", "b", "a"], {"mecha_recipe": "v"}, 3),
        "mixed": (mixed, ["x", "z", "w", "y"], {}, 1),
        "odd": ({"é": f((7,), torch.float8_e5m2, 1), "": f((1,), torch.uint64, 2), "__metadata": f((3,), torch.uint16, 3)}, ["__metadata", "", "é"], {"a": "b"}, 17),
    }


def answer(model, op, named, want, kept):
    """Perform one operation; return None or what is wrong. Tensors obtained are appended to kept."""
    def check(k, v):
        f = fingerprint(v)
        if f != want[k]:
            return f"{op}: {k!r} read as {f}, stored {want[k]}"
        kept.append((k, v))

    if op == "keys":
        if sorted(model.keys()) != sorted(want) or sorted(iter(model)) != sorted(want) or len(model) != len(want):
            return f"names are {sorted(model.keys())} (len {len(model)}), stored {sorted(want)}"
    elif op == "items":
        seen = []
        for k, v in model.items():
            seen.append(k)
            if (bad := check(k, v)):
                return bad
        if sorted(seen) != sorted(want):
            return f"items gives {seen}"
    elif op == "values":
        vals = list(model.values())
        if sorted(map(fingerprint, vals)) != sorted(want.values()):
            return "values gives other tensors"
    elif op == "metadata":
        got = {k: (DT_REV[m.dtype], tuple(m.shape)) for k, m in model.metadata()}
        if got != {k: v[:2] for k, v in want.items()}:
            return f"metadata gives {got}"
    elif op in (MISSING, "__metadata__"):
        try:
            v = model[op]
        except sd_mecha.StateDictKeyError:
            if op in model:
                return f"{op!r} is reported as present"
            return
        except Exception as e:
            return f"reading absent {op!r} raised {e!r}, not the missing-key error"
        return f"reading absent {op!r} gave {v!r}"
    else:
        if op not in model:
            return f"{op!r} is reported as absent"
        return check(op, model[op])


def histories(case, s):
    entries, order, meta, pad = files()[case["file"]]
    path = pathlib.Path(scratch()) / "s03.safetensors"
    total = raw_file(path, entries, order, meta, pad)
    want = prints(entries)
    largest = max(t.numel() * t.element_size() for t in entries.values())
    ops = list(entries) + [MISSING, "__metadata__", "items"] + case.get("extra", [])
    buffers = case.get("buffers") or list(range(0, total + 2))
    first = [case["first"]] if case["first"] is not None else []
    with fsfault.Layer(scratch()) as layer:
        for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
            seq = first + list(rest)
            for buffer in buffers:
                layer.ops.clear()
                model = streaming.InSafetensorsDict(path, buffer)
                opened = len(layer.ops)
                kept, bad = [], None
                for op in seq:
                    s.step()
                    bad = answer(model, op, entries, want, kept)
                    if bad:
                        break
                if not bad:
                    for k, v in kept:
                        if fingerprint(v) != want[k]:
                            bad = f"the tensor obtained for {k!r} changed because of later reads"
                    for _, kind, _, size in layer.ops[opened:]:
                        if kind == "read" and size > max(buffer, largest):
                            bad = f"a read of {size} bytes exceeds both the buffer ({buffer}) and the largest tensor ({largest})"
                            break
                model.close()
                layer.opened.clear()
                s.trace()
                s.state((case["file"], buffer, tuple(o[3] for o in layer.ops[opened:])))
                if bad:
                    s.violation("history", f"file {case['file']}, buffer {buffer}, accesses {seq}: {bad}")
                    if len(s.violations) > 5:
                        return
    s.sample({"file": case["file"], "first": case["first"], "depth": case["depth"], "buffers": len(buffers)})


def catalogue(case, s):
    """Every dtype and shape, read forwards, backwards and twice."""
    dt = DT[case["dtype"]]
    path = pathlib.Path(scratch()) / "s03c.safetensors"
    entries = {f"k{i}": fill(sh, dt, i) for i, sh in enumerate(SHAPES)}
    names = list(entries)
    for order in (names, names[::-1], names[3:] + names[:3]):
        total = raw_file(path, entries, order, None, 0)
        want = prints(entries)
        for buffer in (0, 1, 7, 16, 64, total, 4 * total):
            for access in (names, names[::-1], order, names + names, [k for k in names for _ in (0, 1)]):
                model = streaming.InSafetensorsDict(path, buffer)
                kept = []
                for k in access:
                    s.step()
                    bad = answer(model, k, entries, want, kept)
                    if bad:
                        s.violation("catalogue", f"{case['dtype']} buffer {buffer}: {bad}")
                for op in ("keys", "values", "metadata"):
                    bad = answer(model, op, entries, want, kept)
                    if bad:
                        s.violation("catalogue", f"{case['dtype']} buffer {buffer}: {bad}")
                if any(fingerprint(v) != want[k] for k, v in kept):
                    s.violation("catalogue", f"{case['dtype']} buffer {buffer}: a returned tensor changed")
                model.close()
                s.trace()
                s.state((case["dtype"], order, buffer, access))
    s.sample({"dtype": case["dtype"], "shapes": [list(x) for x in SHAPES]})


def large(case, s):
    """Many entries, large entries, long headers; several ways of going through them."""
    path = pathlib.Path(scratch()) / "s03l.safetensors"
    n, shapes = case["count"], case["shapes"]
    entries = {f"k{i}." + "n" * (i % 5 * case["name"]): fill(shapes[i % len(shapes)], DT[case["dtypes"][i % len(case["dtypes"])]], i) for i in range(n)}
    names = list(entries)
    want = prints(entries)
    largest = max(t.numel() * t.element_size() for t in entries.values())
    for order in (names, names[::-1], names[1::3] + names[::3] + names[2::3]):
        total = raw_file(path, entries, order, {"mecha_recipe": "r" * case["name"] * 10}, case["pad"])
        for buffer in case["buffers"]:
            with fsfault.Layer(scratch()) as layer:
                for access in (names, names[::-1], order[::2] + order[1::2], [k for k in order[:40] for _ in (0, 1)], ["items", names[-1]], ["values", "keys", "metadata", MISSING, names[0]]):
                    layer.ops.clear()
                    model = streaming.InSafetensorsDict(path, buffer)
                    opened = len(layer.ops)
                    kept = []
                    for op in access:
                        s.step()
                        bad = answer(model, op, entries, want, kept)
                        if bad:
                            break
                    if not bad and any(fingerprint(v) != want[k] for k, v in kept):
                        bad = "a returned tensor changed"
                    if not bad and any(kind == "read" and size > max(buffer, largest) for _, kind, _, size in layer.ops[opened:]):
                        bad = f"a read exceeds both the buffer ({buffer}) and the largest tensor ({largest})"
                    model.close()
                    layer.opened.clear()
                    s.trace()
                    s.state((n, shapes, buffer, tuple(o[3] for o in layer.ops[opened:])))
                    if bad:
                        s.violation("large", f"{n} entries of {shapes}, buffer {buffer}: {str(bad)[:300]}")
                        break
    s.sample({"entries": n, "buffers": case["buffers"]})


def large_cases(T):
    cases = [dict(count=n, shapes=[(1,), (2,), (), (3, 2)], dtypes=["F32", "U8", "BF16"], name=nm, pad=pad, buffers=[0, 5, 100, 4096, 2 ** 20])
             for n in ((100, 900, 3000) if T else (100, 900)) for nm, pad in ((0, 0), (50, 4096))]
    cases += [dict(count=3, shapes=[shape, (5,), shape[::-1]], dtypes=[dt], name=1, pad=0, buffers=[0, 1000, 2 ** 16, 2 ** 20, 2 ** 26])
              for shape in [(1023,), (1025,), (300, 257), (70000,), (2 ** 18 + 1,)] + ([(3000, 1111)] if T else []) for dt in ("F32", "BF16", "U8", "I64")]
    cases += [dict(count=4, shapes=[(2,), (9,)], dtypes=["F32"], name=nm, pad=pad, buffers=[0, 64, 2 ** 20]) for nm, pad in ((20000, 0), (1, 200000))]
    return cases


PARTS = {"histories": histories, "catalogue": catalogue, "large": large}


def run(ck):
    ck.rule = "every access history within the bounds runs on the real reader; states are distinct sequences of physical reads"
    depth = 5 if ck.thorough else 4
    extra = ["keys", "values", "metadata"] if ck.thorough else []
    cases = []
    for name, (entries, order, meta, pad) in files().items():
        ops = list(entries) + [MISSING, "__metadata__", "items"] + extra
        for d in range(1, depth + 1):
            for first in ops:
                cases.append({"file": name, "depth": d, "first": first, "extra": extra})
    ck.bounds = {"depth": depth, "buffers": "every size from 0 to the data size + 1", "files": list(files())}
    ck.cases("histories", histories, cases, chunk=1, limit=800)
    ck.cases("catalogue", catalogue, [{"dtype": d} for d in DT], chunk=1)
    ck.cases("large", large, large_cases(ck.thorough), chunk=1, limit=600)
