"""M08: computation and output happen in the requested dtypes and on the requested devices."""
import itertools
import threading
from .. import probes
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

CONFIG = "zzm-dt"
KEYS = {"a": (3,), "b": (2, 2), "c": ()}
SEEN, LOCK = [], threading.Lock()


def note(name, key, t):
    with LOCK:
        SEEN.append((name, key, t.dtype if isinstance(t, torch.Tensor) else type(t), str(t.device) if isinstance(t, torch.Tensor) else None))


@sd_mecha.merge_method(identifier="mc_see")
def mc_see(a: P(Tn), **kwargs) -> Rt(Tn):
    note("a", kwargs["key"], a)
    return a


@sd_mecha.merge_method(identifier="mc_see_sd")
def mc_see_sd(a: P(SD[Tn]), **kwargs) -> Rt(Tn):
    for k in a.keys():
        if k in KEYS:
            note("a", k, a[k])
    return a[kwargs["key"]]


@sd_mecha.merge_method(identifier="mc_mix")
def mc_mix(a: P(Tn), b: P(Tn), alpha: P(Tn) = 0.1, **kwargs) -> Rt(Tn):
    for n, t in (("a", a), ("b", b), ("alpha", alpha)):
        note(n, kwargs["key"], t)
    return a + alpha * b


@sd_mecha.merge_method(identifier="mc_all")
def mc_all(*xs: P(Tn), w: P(SD[Tn]) = 0.3, **kwargs) -> Rt(Tn):
    for i, t in enumerate(xs):
        note(f"x{i}", kwargs["key"], t)
    v = w[kwargs["key"]]
    note("w", kwargs["key"], v)
    return xs[0] * v


def ensure_config():
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, {"c": {k: {"shape": list(sh), "dtype": "float32"} for k, sh in KEYS.items()}}))
    except ValueError:
        pass


def data(i, dtype, lacks=(), extra=()):
    out = {}
    for j, (k, sh) in enumerate({**KEYS, **{e: (2,) for e in extra}}.items()):
        n = 1
        for x in sh:
            n *= x
        v = torch.tensor([(m * 7 + i * 3 + j + 1) / (3.0 + m) + 0.001 * (i + 1) for m in range(n)], dtype=torch.float64)
        if not dtype.is_floating_point:
            v = v * 10 + 2000 * (dtype != torch.bool and torch.iinfo(dtype).max > 3000)
        if k not in lacks:
            out[k] = v.reshape(sh).to(dtype)
    return out


class Ctx:
    """Inputs of a case: data and leaf nodes; helpers of the reference."""

    def __init__(self, case, root):
        self.root, self.case = root, case
        self.md, self.od = (DT.get(case["merge"]), DT.get(case["out"]))
        self.dtypes = [DT[d] for d in case["inputs"]]
        self.n = 0

    def leaf(self, i, **kw):
        d = data(i, self.dtypes[i], **kw)
        if self.case["kind"] == "file":
            self.n += 1
            path = self.root / f"m08_{self.n}.safetensors"
            write_safetensors(path, d)
            return d, sd_mecha.model(path, CONFIG)
        return d, sd_mecha.model(d, CONFIG)

    def m(self, t):
        return t if self.md is None else t.to(self.md)

    def num(self, v):
        return torch.tensor(v, dtype=self.md or torch.float32)


def recipes():
    """name -> fn(ctx) -> (recipe, merge options, reference result before the output cast, operands the methods must see)"""
    def leaf(c):
        d, n = c.leaf(0)
        return n, {}, {k: c.m(t) for k, t in d.items()}, {}

    def see(c):
        d, n = c.leaf(0)
        return mc_see(n), {}, {k: c.m(t) for k, t in d.items()}, {("a", k): c.m(t).dtype for k, t in d.items()}

    def see_sd(c):
        d, n = c.leaf(0)
        return mc_see_sd(n), {}, {k: c.m(t) for k, t in d.items()}, {("a", k): c.m(t).dtype for k, t in d.items()}

    def nested_see(c):
        d, n = c.leaf(1)
        return mc_see_sd(mc_see(n)), {}, {k: c.m(t) for k, t in d.items()}, {("a", k): c.m(t).dtype for k, t in d.items()}

    def mix(c, alpha=..., number=lambda k: 0.1, values=None):
        (d, n), (e, o) = c.leaf(0), c.leaf(1)
        al = (lambda k: c.num(number(k))) if values is None else (lambda k: c.m(values(k)))
        kw = {} if alpha is ... else {"alpha": alpha}
        want = {k: c.m(d[k]) + al(k) * c.m(e[k]) for k in d}
        seen = {(x, k): t.dtype for k in d for x, t in (("a", c.m(d[k])), ("b", c.m(e[k])), ("alpha", al(k)))}
        return mc_mix(n, o, **kw), {}, want, seen

    def fallback(c, operator):
        (d, n), (e, o) = c.leaf(0, lacks=("b",)), c.leaf(1)
        want = {k: c.m(d[k]) if k in d else c.m(e[k]) for k in KEYS}
        seen = {("a", k): c.m(t).dtype for k, t in d.items()}
        return (mc_see(n) | o, {}, want, seen) if operator else (mc_see(n), {"fallback_model": o}, want, seen)

    def nested(c):
        (d, n), (e, o) = c.leaf(0), c.leaf(1)
        r = sd_mecha.literal({"a": mc_see(n), "b": o, "c": n}, CONFIG, "weight")
        return r, {}, {"a": c.m(d["a"]), "b": c.m(e["b"]), "c": c.m(d["c"])}, {("a", "a"): c.m(d["a"]).dtype}

    def numbers(c):
        vals = {"a": 0.1, "b": 0.3, "c": 1000.1}
        return mc_see(sd_mecha.literal(vals, CONFIG, "weight")), {}, {k: c.num(v) for k, v in vals.items()}, {("a", k): c.num(0.1).dtype for k in vals}

    def forward(c, deep):
        (d, n), (e, o) = c.leaf(0, extra=("x", "y")), c.leaf(1, extra=("y", "z"))
        if deep:
            r, want = mc_all(n, o), {k: c.m(d[k]) * c.num(0.3) for k in KEYS}
            # a key of every operand is computed like any other, the others are forwarded as they are
            want |= {"x": d["x"], "y": c.m(d["y"]) * c.num(0.3), "z": e["z"]}
            seen = {(x, k): t.dtype for k in KEYS for x, t in (("x0", c.m(d[k])), ("x1", c.m(e[k])), ("w", c.num(0.3)))}
        else:
            r, want, seen = n, {k: c.m(t) for k, t in d.items()}, {}
        return r, {"omit_extra_keys": False}, want, seen

    def variadic(c):
        (d, n), (e, o) = c.leaf(0), c.leaf(1)
        want = {k: c.m(d[k]) * c.num(0.7) for k in KEYS}
        seen = {(x, k): t.dtype for k in KEYS for x, t in (("x0", c.m(d[k])), ("x1", c.m(e[k])), ("x2", c.m(d[k])), ("w", c.num(0.7)))}
        return mc_all(n, o, n, w=0.7), {}, want, seen

    def explicit(c):
        d, n = c.leaf(0)
        return mc_see(sd_mecha.cast(n, dtype="float32")), {}, {k: c.m(t).to(torch.float32) for k, t in d.items()}, {("a", k): torch.float32 for k in d}

    tensors = {"a": torch.tensor([0.1, 0.2, 0.3], dtype=torch.float64), "b": torch.tensor(0.7, dtype=torch.float32), "c": torch.tensor(1.1, dtype=torch.float64)}
    per_key = {"a": 0.1, "b": 1 / 3, "c": 2.0}
    return {
        "leaf": leaf, "see": see, "state dict": see_sd, "nested": nested_see, "default number": mix, "number": lambda c: mix(c, 0.3, lambda k: 0.3),
        "integer": lambda c: mix(c, 3, lambda k: 3.0), "number per key": lambda c: mix(c, per_key, per_key.get),
        "tensor parameter": lambda c: mix(c, tensors["c"], values=lambda k: tensors["c"]), "tensor per key": lambda c: mix(c, tensors, values=tensors.get),
        "fallback option": lambda c: fallback(c, False), "fallback operator": lambda c: fallback(c, True), "recipe per key": nested, "numbers as model": numbers,
        "forwarded": lambda c: forward(c, False), "forwarded deep": lambda c: forward(c, True), "variadic": variadic, "explicit cast": explicit,
    }


RECIPES = recipes()


def run_case(case, s):
    ensure_config()
    root = pathlib.Path(scratch())
    for name in case["recipes"]:
        for inputs, kind, to in itertools.product(case["inputs"], ("memory", "file"), ("dict", "file")):
            one(dict(case, inputs=inputs, kind=kind, to=to, recipe=name), s, root)


def one(case, s, root):
    c = Ctx(case, root)
    name = case["recipe"]
    recipe, opts, want, seen = RECIPES[name](c)
    where = f"{name}: inputs {case['inputs']} ({case['kind']}), merge_dtype={case['merge']}, output_dtype={case['out']}, to {case['to']}, threads={case['threads']}"
    SEEN.clear()
    s.trace()
    s.state((name, case["inputs"], case["kind"], case["merge"], case["out"], case["to"]))
    path = root / "m08_out.safetensors"
    got = sd_mecha.merge(recipe, merge_dtype=c.md, output_dtype=c.od, threads=case["threads"], tqdm=NoBar, total_buffer_size=64, check_finite=False,
                         output=path if case["to"] == "file" else None, **opts)
    have = parse_safetensors(path.read_bytes())[0] if case["to"] == "file" else prints(got)
    want = prints({k: t if c.od is None else t.to(c.od) for k, t in want.items()})
    if set(have) != set(want):
        s.violation("keys", f"{where}: keys {sorted(have)} instead of {sorted(want)}")
    for k in want:
        s.step()
        if k in have and have[k][0] != want[k][0]:
            s.violation("output-dtype", f"{where}: {k} is {have[k][0]}, expected {want[k][0]}")
        elif k in have and tuple(have[k][1]) != tuple(want[k][1]):
            s.violation("output-shape", f"{where}: {k} has shape {have[k][1]}")
        elif k in have and have[k][2] != want[k][2]:
            s.violation("output-value", f"{where}: {k} = {have[k][2]}, expected {want[k][2]}")
    for n, k, dt, dev in SEEN:
        s.step()
        if (n, k) in seen and dt != seen[n, k]:
            s.violation("compute-dtype", f"{where}: the method sees {n} of {k} as {dt}, expected {seen[n, k]}")
    missing = set(seen) - {(n, k) for n, k, _, _ in SEEN}
    if missing:
        s.violation("unseen", f"{where}: operands never computed: {sorted(missing)}")


def devices(case, s):
    """The meta device tells where tensors are without needing another device."""
    ensure_config()
    root = pathlib.Path(scratch())
    for name, kind, md, od in itertools.product(RECIPES, ("memory", "file"), ("F32", None), ("F16", None)):
        c = Ctx({"inputs": ["F32", "BF16"], "kind": kind, "merge": md, "out": od}, root)
        recipe, opts, want, seen = RECIPES[name](c)
        dm, do = case["merge"], case["output"]
        if "numbers" in name and dm is None and md is None and do is None and od is None:
            continue
        tensor_param = "parameter" in name or "per key" in name
        SEEN.clear()
        s.trace()
        s.state((name, kind, md, od, dm, do))
        where = f"{name} ({kind}): merge_device={dm}, output_device={do}, dtypes {md}, {od}"
        got = sd_mecha.merge(recipe, merge_dtype=c.md, output_dtype=c.od, merge_device=dm, output_device=do, threads=case["threads"], tqdm=NoBar, check_finite=False, **opts)
        for k in want:
            s.step()
            if k not in got:
                s.violation("device-keys", f"{where}: {k} is missing")
                continue
            expect = do or (dm if k in KEYS or name != "forwarded deep" or k == "y" else None) or "cpu"
            if str(got[k].device) != expect:
                s.violation("output-device", f"{where}: {k} is on {got[k].device}")
            if od is not None and got[k].dtype != c.od:
                s.violation("output-dtype", f"{where}: {k} is {got[k].dtype}")
        for n, k, dt, dev in SEEN:
            if dev != (dm or "cpu"):
                s.violation("compute-device", f"{where}: the method sees {n} of {k} on {dev}")
            if dt != seen.get((n, k), dt):
                s.violation("compute-dtype", f"{where}: the method sees {n} of {k} as {dt}, expected {seen[n, k]}")


PARTS = {"dtypes": run_case, "devices": devices}


def run(ck):
    pairs = [("F32", "F32"), ("F16", "F16"), ("BF16", "F32"), ("F64", "F16"), ("F32", "F64")]
    merges = ["F64", "F32", "F16", "BF16", None]
    outs = ["F64", "F32", "F16", "BF16", None]
    cases = []
    if ck.thorough:
        pairs = list(itertools.product(("F64", "F32", "F16", "BF16"), repeat=2)) + [("I64", "F32"), ("F32", "I32"), ("I16", "U8"), ("BOOL", "F16")]
        outs += ["F8_E4M3", "F8_E5M2", "I32", "I64", "U8"]
    for md in merges:
        for od in outs:
            for threads in (0, 2) if ck.thorough else (0,):
                names = list(RECIPES)
                for i in range(0, len(names), 6):
                    use = pairs if ck.thorough or md is None or od is None else pairs[:3]
                    cases.append({"merge": md, "out": od, "threads": threads, "recipes": names[i:i + 6], "inputs": [list(p) for p in use]})
    # integer and 8-bit inputs with their own dtype kept
    if not ck.thorough:
        for md, od in ((None, None), ("F32", None), (None, "F16"), ("F64", "F8_E4M3"), ("F32", "I32")):
            cases.append({"merge": md, "out": od, "threads": 0, "recipes": ["leaf", "see", "state dict", "nested", "fallback option", "fallback operator", "recipe per key", "forwarded"],
                          "inputs": [["I64", "F32"], ["I32", "BF16"], ["BOOL", "U8"], ["F8_E4M3", "F8_E5M2"], ["I8", "I16"]]})
    ck.rule = "a state is one recipe with one combination of input dtypes, merge dtype, output dtype, input kind and output kind; the dtypes seen by the methods and the bytes of the output are compared with a direct conversion chain"
    ck.bounds = {"recipes": list(RECIPES), "merge dtypes": merges, "output dtypes": outs, "input dtypes": pairs}
    ck.cases("dtypes", run_case, cases, chunk=1)
    ck.cases("devices", devices, [{"merge": m, "output": o, "threads": t} for m in (None, "cpu", "meta") for o in (None, "cpu", "meta") for t in (0, 2) if not (m == "meta" and o == "cpu")], chunk=1)
