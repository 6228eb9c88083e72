"""M07: a merge never modifies its inputs."""
import copy
from .. import methods, probes
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

DTYPES = [(None, None), (torch.float32, torch.float32), (torch.float64, torch.float16), (None, torch.float32), (torch.float32, None),
          (torch.float16, torch.float16)]


@sd_mecha.merge_method(identifier="mc_fail_after")
def mc_fail_after(a: P(Tn), **kwargs) -> Rt(Tn):
    if kwargs["key"] in ("m2", "v1"):
        raise RuntimeError("failing on purpose")
    return a


def snapshot(dicts):
    out = []
    for d in dicts:
        if isinstance(d, torch.Tensor):
            d = {"": d}
        out.append([(k, id(t), fingerprint(t)[:2] + (storage(t),) if isinstance(t, torch.Tensor) else repr(t)) for k, t in d.items()])
    return out


def storage(t):
    """The bytes of the whole underlying memory, beyond the view too."""
    return bytes(t.untyped_storage()).hex()


def diff(before, after):
    for i, (x, y) in enumerate(zip(before, after)):
        if [e[0] for e in x] != [e[0] for e in y]:
            return f"keys of input {i}: {[e[0] for e in x]} became {[e[0] for e in y]}"
        for p, q in zip(x, y):
            if p != q:
                return f"input {i} key {p[0]!r}: " + ("another tensor" if p[1] != q[1] else f"{p[2]} became {q[2]}")[:300]
    return None


def leaves_of(entry, kind, root, dtype):
    """The operands of a call and everything of the user's that they involve."""
    dicts, nodes, files = [], [], []
    for i, sp in enumerate(entry.operands):
        space = methods.SPACE[sp]
        d = methods.data(i, sp, dtype)
        if kind == "shared" and sp in entry.operands[:i]:
            nodes.append(nodes[entry.operands.index(sp)])
            continue
        if kind == "aliased":  # every key a view of one storage
            total = sum(t.numel() for t in d.values())
            base, at = torch.zeros(total + 3, dtype=dtype), 1
            for k, t in d.items():
                base[at:at + t.numel()] = t.reshape(-1)
                d[k] = base[at:at + t.numel()].view(t.shape)
                at += t.numel()
        if kind == "file" or kind == "mixed" and i % 2:
            path = root / f"m07_{i}.safetensors"
            write_safetensors(path, d)
            files.append(path)
            nodes.append(sd_mecha.model(path, methods.CONFIG, merge_space=space))
        else:
            dicts.append(d)
            nodes.append(sd_mecha.literal(d, methods.CONFIG, space) if kind == "aliased" else sd_mecha.model(d, methods.CONFIG, merge_space=space))
    return nodes, dicts, files


def tensor_params(entry, variant, mode):
    """The same parameters, given as tensors or per-key dictionaries held by the user."""
    held, out = [], {}
    for k, v in variant.items():
        if k in ("alpha",) and mode == "tensor":
            v = torch.tensor(float(v), dtype=torch.float64)
            held.append(v)
        elif k in ("alpha",) and mode == "dict":
            v = {key: torch.full(sh, float(v), dtype=torch.float32) for key, sh in methods.SHAPES.items()}
            held.append(v)
        elif k in ("alpha",) and mode == "numbers":
            v = {key: float(v) for key in methods.SHAPES}
            held.append(v)
        elif k == "cache" and v is not None:
            v = {}
        out[k] = v
    return out, held


def run_case(case, s):
    methods.ensure_config()
    root = pathlib.Path(scratch())
    entry = methods.CATALOGUE[case["entry"]]
    in_dtype = DT[case["dtype"]]
    for v, variant in enumerate(entry.variants()):
        modes = ["number"] + (["tensor", "dict", "numbers"] if "alpha" in variant else [])
        for mode in modes:
            for merge_dtype, output_dtype in DTYPES if mode == "number" or case["full"] else DTYPES[:2]:
                for kind in case["kinds"]:
                    for fail in ((False, True) if v == 0 else (False,)):
                        one(case, s, entry, variant, mode, merge_dtype, output_dtype, kind, fail, root, in_dtype)


def one(case, s, entry, variant, mode, merge_dtype, output_dtype, kind, fail, root, in_dtype):
    nodes, dicts, files = leaves_of(entry, kind, root, in_dtype)
    params, held = tensor_params(entry, variant, mode)
    before = snapshot(dicts + [h for h in held if h])
    before_files = [f.read_bytes() for f in files]
    where = f"{entry.name}({entry.operands}) {variant} as {mode}, inputs {kind} {case['dtype']}, merge_dtype={merge_dtype}, output_dtype={output_dtype}{', failing' if fail else ''}"
    outcome = "ok"
    devices = (("cpu", "cpu"), (None, None))
    for device in devices if case["full"] or not variant else devices[:1] if mode != "number" else devices[1:]:
        try:
            recipe = entry.call(nodes, params)
            if fail:
                recipe = mc_fail_after(recipe)
            sd_mecha.merge(recipe, threads=case["threads"], strict_weight_space=False, merge_dtype=merge_dtype, output_dtype=output_dtype, tqdm=NoBar,
                           merge_device=device[0], output_device=device[1], total_buffer_size=64, check_finite=False,
                           output=root / "m07_out.safetensors" if kind in ("file", "aliased") else None)
        except Exception as e:  # an unsupported dtype of some operation, or the failure on purpose; the inputs must be intact either way
            outcome = type(e).__name__
        s.trace()
        s.step(sum(len(d) for d in dicts) + len(files))
        bad = diff(before, snapshot(dicts + [h for h in held if h]))
        if bad:
            s.violation(f"input-changed:{entry.name}", f"{where}: {bad}")
        for f, b in zip(files, before_files):
            if f.read_bytes() != b:
                s.violation("file-changed", f"{where}: {f.name} was changed")
        if bad:
            break
    s.count("ok" if outcome == "ok" else "failed")
    s.state((entry.name, entry.operands, str(variant), mode, str(merge_dtype), str(output_dtype), kind, fail, case["dtype"], case["threads"]))


# ------------------------------------------------------------------ an output that is also an input
def overlap(case, s):
    methods.ensure_config()
    root = pathlib.Path(scratch()) / "overlap"
    root.mkdir(exist_ok=True)
    for p in root.iterdir():
        p.unlink()
    sub = {"a.safetensors": methods.data(0), "b.safetensors": methods.data(1)}
    for n, d in sub.items():
        write_safetensors(root / n, d, {"kept": "yes"})
    os.symlink(root / "b.safetensors", root / "link.safetensors")
    os.link(root / "b.safetensors", root / "hard.safetensors")
    before = {n: (root / n).read_bytes() for n in sub}
    m = lambda p: sd_mecha.model(p, methods.CONFIG)
    a, b = m(root / "a.safetensors"), m(root / "b.safetensors")
    recipes = {
        "alone": (b, None),
        "average": (sd_mecha.n_average(a, b), None),
        "deep": (sd_mecha.weighted_sum(a, sd_mecha.n_average(a, sd_mecha.clamp(b, a, b)), alpha=0.5), None),
        "fallback option": (a, b),
        "fallback operator": (a | b, None),
        "relative": (sd_mecha.n_average(a, m("b.safetensors")), None),
        "keys": (sd_mecha.literal({k: (b if k == "m2" else a) for k in methods.SHAPES}, methods.CONFIG, "weight"), None),
        "unrelated": (a, None),
    }
    outs = {
        "absolute": root / "b.safetensors", "string": str(root / "b.safetensors"), "relative": pathlib.Path("b.safetensors"), "dots": root / "." / ".." / root.name / "b.safetensors",
        "link": root / "link.safetensors", "hard link": root / "hard.safetensors",
    }
    for threads in (0, 2):
        recipe, fb = recipes[case["recipe"]]
        error = None
        try:
            sd_mecha.merge(recipe, fallback_model=fb, threads=threads, tqdm=NoBar, model_dirs=[root], output=outs[case["out"]], merge_dtype=torch.float32, output_dtype=torch.float32,
                           total_buffer_size=case["buffer"])
        except Exception as e:
            error = e
        s.trace()
        s.step()
        s.state((case["recipe"], case["out"], threads, case["buffer"]))
        for n in before:
            if case["recipe"] == "unrelated" and n == "b.safetensors":
                if error is not None:
                    s.violation("refused", f"{case}: an existing file that is no input cannot be replaced: {error!r}")
                continue
            if (root / n).read_bytes() != before[n]:
                s.violation("input-overwritten", f"{case}, threads={threads}: the input {n} was overwritten ({error!r})")
                (root / n).write_bytes(before[n])
    s.sample(case)


PARTS = {"methods": run_case, "overlap": overlap}


def run(ck):
    dtypes = ["F32", "F64", "F16"] if not ck.thorough else ["F32", "F64", "F16", "BF16"]
    cases = []
    for i, e in enumerate(methods.CATALOGUE):
        for dt in dtypes:
            for threads in (0,) if not ck.thorough else (0, 2):
                kinds = ["memory", "shared", "aliased", "file", "mixed"] if ck.thorough else (["memory", "aliased"] if dt != "F32" else ["memory", "shared", "file"])
                cases.append({"entry": i, "dtype": dt, "kinds": kinds, "threads": threads, "full": ck.thorough})
    ck.rule = "a case is one call of a public method or wrapper with one parameter setting, input kind and dtype configuration; the whole memory of every tensor of the user, and the bytes of every input file, are compared before and after"
    ck.bounds = {"methods and wrappers": len(methods.CATALOGUE), "variants": sum(len(list(e.variants())) for e in methods.CATALOGUE), "dtype options": len(DTYPES), "input dtypes": dtypes}
    ck.cases("methods", run_case, cases, chunk=1)
    ck.cases("overlap", overlap, [{"recipe": r, "out": o, "buffer": b} for r in ("alone", "average", "deep", "fallback option", "fallback operator", "relative", "keys", "unrelated")
                                  for o in ("absolute", "string", "relative", "dots", "link", "hard link") for b in (0, 2 ** 20)])
