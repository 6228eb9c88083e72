"""M09: parameters reach methods with the declared type and the exact value."""
import itertools
import math
import struct
import threading
from .. import probes
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

CONFIG = "zzm-par"
KEYS = {"a": (2,), "b": (), "c": (1, 2)}
GOT, LOCK = {}, threading.Lock()
TYPES = {"Tensor": Tn, "float": float, "int": int, "bool": bool, "str": str}
DEFAULTS = {"Tensor": 0.1, "float": 0.1, "int": 2 ** 53 + 1, "bool": True, "str": "a b"}


def note(name, key, v):
    with LOCK:
        GOT[name, key] = v.clone() if isinstance(v, torch.Tensor) else v


def make(name, D, default):
    @sd_mecha.merge_method(identifier=f"mc_par_{name}")
    def par(a: P(Tn), x: P(D, "param"), *, y: P(D) = default, z: P(D) = None, **kwargs) -> Rt(Tn):
        for n, v in (("x", x), ("y", y), ("z", z)):
            note(n, kwargs["key"], v)
        return a

    @sd_mecha.merge_method(identifier=f"mc_parsd_{name}")
    def parsd(a: P(Tn), x: P(SD[D], "param"), *, y: P(SD[D], "param") = default, **kwargs) -> Rt(Tn):
        for n, v in (("x", x), ("y", y)):
            note(n, kwargs["key"], v[kwargs["key"]])
        return a

    @sd_mecha.merge_method(identifier=f"mc_parv_{name}")
    def parv(a: P(Tn), *xs: P(D, "param"), **kwargs) -> Rt(Tn):
        for i, v in enumerate(xs):
            note(f"x{i}", kwargs["key"], v)
        return a

    @sd_mecha.merge_method(identifier=f"mc_parid_{name}")
    def parid(v: P(D, "param")) -> Rt(D, "param"):
        return v
    return {"par": par, "parsd": parsd, "parv": parv, "id": parid}


PROBES = {n: make(n, D, DEFAULTS[n]) for n, D in TYPES.items()}

INTS = [0, 1, -1, 7, 2 ** 24 + 1, 2 ** 53 + 1, -(2 ** 63), 2 ** 63 - 1, 10 ** 30]
FLOATS = [0.0, -0.0, 1.0, 0.1, 1 / 3, -2.5, 1e-9, 1e300, 5e-324, math.inf, -math.inf, math.nan, 65520.0, 2.0 ** 60]
STRS = ["", "a", "x y\n", "é", "1.5", "&0", "None", "x" * 300]
TENSORS = [("F32", 0.1), ("F64", 1 / 3), ("F16", 2.5), ("BF16", -3.0), ("I64", 2 ** 53 + 1), ("I32", 2 ** 24 + 1), ("BOOL", True), ("F64", math.inf)]


def given_values(declared):
    """Every value of the catalogue that the declared type can hold."""
    out = []
    if declared == "str":
        return [("lit", v) for v in STRS]
    if declared == "bool":
        return [("lit", v) for v in (True, False, 0, 1, 0.0, 1.0)] + [("t", "BOOL", True), ("t", "F32", 0.0), ("t", "I64", 1)]
    if declared == "int":
        return [("lit", v) for v in INTS + [True, False, 2.0, -0.0, 2.0 ** 60]] + [("t", d, v) for d, v in TENSORS if float(v).is_integer()]
    out = [("lit", v) for v in INTS + FLOATS + [True, False]] + [("t", d, v) for d, v in TENSORS]
    return out


def materialise(g):
    return torch.tensor(g[2], dtype=DT[g[1]]) if g[0] == "t" else g[1]


def expected(declared, g, md):
    """What the method must get."""
    v = materialise(g)
    if declared == "Tensor":
        if isinstance(v, torch.Tensor):
            return v if md is None else v.to(md)
        return torch.tensor(float(v), dtype=torch.float64).to(md or torch.float32)
    raw = v.item() if isinstance(v, torch.Tensor) else v
    return {"float": float, "int": int, "bool": bool, "str": str}[declared](raw)


def same(x, y):
    if isinstance(y, torch.Tensor):
        return isinstance(x, torch.Tensor) and fingerprint(x)[:2] == fingerprint(y)[:2] and (fingerprint(x) == fingerprint(y) or y.isnan().all() and x.isnan().all())
    if type(x) is not type(y):
        return type(y) is int and type(x) is bool and x == y  # a bool is an int in Python
    if isinstance(y, float):
        return math.isnan(x) and math.isnan(y) or struct.pack("<d", x) == struct.pack("<d", y)
    return x == y


def ensure_config():
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, {"c": {k: {"shape": list(sh), "dtype": "float32"} for k, sh in KEYS.items()}}))
    except ValueError:
        pass


def ways(declared, gs):
    """name -> (argument, {key: given}): the ways one or three values can be handed over."""
    v = [materialise(g) for g in gs]
    ks = list(KEYS)
    mine = dict(zip(ks, gs))
    ident = PROBES[declared]["id"]
    lit = lambda d: sd_mecha.literal(d, CONFIG, "param")
    all0 = {k: gs[0] for k in ks}
    out = {"value": (v[0], all0), "literal": (sd_mecha.literal(v[0]), all0), "recipe": (ident(v[0]), all0), "recipe of recipe": (ident(ident(v[0])), all0)}
    kinds = {torch.Tensor if isinstance(x, torch.Tensor) else str if isinstance(x, str) else float for x in v}
    if len(kinds) == 1:
        d = dict(zip(ks, v))
        out["dictionary"] = (dict(d), mine)
        out["dictionary node"] = (lit(dict(d)), mine)
        out["recipe of dictionary"] = (ident(lit(dict(d))), mine)
        out["dictionary of recipes"] = ({k: ident(lit(dict(d))) for k in ks}, mine)
        out["fallback"] = (lit({ks[0]: v[0]}) | v[1], {ks[0]: gs[0], ks[1]: gs[1], ks[2]: gs[1]})
        out["fallback dictionary"] = (lit({ks[0]: v[0]}) | lit(dict(zip(ks, v[1:2] * 3))), {ks[0]: gs[0], ks[1]: gs[1], ks[2]: gs[1]})
    return out


def run_case(case, s):
    ensure_config()
    declared, md, threads = case["declared"], DT.get(case["merge"]), case["threads"]
    model = lambda: sd_mecha.model({k: torch.ones(sh) for k, sh in KEYS.items()}, CONFIG)
    gs = [tuple(g) for g in case["given"]]
    default = ("lit", DEFAULTS[declared])
    for way, (arg, per_key) in ways(declared, gs).items():
        if declared == "Tensor" and way not in ("value", "dictionary", "literal", "dictionary node") and any(g[0] == "lit" for g in gs) and md is None:
            continue  # without a merge dtype a number turns into float32 at each step: nothing exact to expect
        for shape in ("positional", "keyword", "state dict", "state dict keyword", "variadic"):
            where = f"{declared} parameter given {[g[1:] for g in gs]!r:.200} as {way}, {shape}, merge_dtype={case['merge']}, threads={threads}"
            pr = PROBES[declared]
            # the two arguments are different nodes: y and z get the value in turn
            x = materialise(gs[0])
            x_want = {k: gs[0] for k in KEYS}
            if shape == "positional":
                recipe, names = pr["par"](model(), arg), {"x": per_key, "y": {k: default for k in KEYS}, "z": None}
            elif shape == "keyword":
                recipe, names = pr["par"](model(), x, y=arg, z=arg), {"x": x_want, "y": per_key, "z": per_key}
            elif shape == "state dict":
                recipe, names = pr["parsd"](model(), arg), {"x": per_key, "y": {k: default for k in KEYS}}
            elif shape == "state dict keyword":
                recipe, names = pr["parsd"](model(), x, y=arg), {"x": x_want, "y": per_key}
            else:
                recipe, names = pr["parv"](model(), x, arg, x), {"x0": x_want, "x1": per_key, "x2": x_want}
            GOT.clear()
            s.trace()
            s.state((declared, case["merge"], way, shape, tuple(repr(g) for g in gs)))
            try:
                sd_mecha.merge(recipe, merge_dtype=md, threads=threads, tqdm=NoBar, output_dtype=None)
            except Exception as e:
                s.violation(f"error:{declared}:{type(e).__name__}", f"{where}: {e!r}")
                continue
            for n, want in names.items():
                for k in KEYS:
                    s.step()
                    if (n, k) not in GOT:
                        s.violation("unseen", f"{where}: {n} of {k} was not delivered")
                        continue
                    w = None if want is None else expected(declared, want[k], md)
                    if not (GOT[n, k] is None if w is None else same(GOT[n, k], w)):
                        s.violation(f"value:{declared}", f"{where}: {n} of {k} is {GOT[n, k]!r} ({type(GOT[n, k]).__name__}{', ' + str(GOT[n, k].dtype) if isinstance(GOT[n, k], torch.Tensor) else ''}), expected {w!r}")
    s.sample({k: case[k] for k in ("declared", "given", "merge")})


# ------------------------------------------------------------------ wrong kinds are refused
@sd_mecha.merge_method(identifier="mc_par_any_out")
def mc_par_any_out(v: P(Tn)) -> Rt(Tn):
    return v


def refused(case, s):
    """A value that a declared type cannot hold is an error, never another value."""
    ensure_config()
    wrong = {"str": [1, 2.5, True, torch.tensor(1.0)], "int": ["x", torch.ones(2), math.inf, math.nan], "float": ["x", torch.ones(2)], "bool": [torch.ones(2)], "Tensor": ["x"]}
    model = sd_mecha.model({k: torch.ones(sh) for k, sh in KEYS.items()}, CONFIG)
    declared, md = case["declared"], DT.get(case["merge"])
    for v in wrong[declared]:
        for way, arg in (("value", v), ("dictionary", {k: v for k in KEYS}), ("node", sd_mecha.literal({k: v for k in KEYS}, CONFIG, "param"))):
            for kind, extra in (("par", {}), ("parsd", {})):
                GOT.clear()
                s.trace()
                s.step()
                s.state((declared, repr(v), way, kind, case["merge"]))
                try:
                    sd_mecha.merge(PROBES[declared][kind](model, arg), merge_dtype=md, threads=case["threads"], tqdm=NoBar, output_dtype=None)
                except Exception:
                    continue
                s.violation(f"accepted:{declared}", f"{declared} parameter given {v!r} as {way}: accepted as {GOT.get(('x', 'a'))!r}")


PARTS = {"values": run_case, "refused": refused}


def run(ck):
    merges = ["F64", "F32", "F16", None] if not ck.thorough else ["F64", "F32", "F16", "BF16", None]
    cases = []
    for declared in TYPES:
        gs = given_values(declared)
        n = len(gs)
        for md in merges:
            for i in range(n):
                triples = [(i, (i + 1) % n, (i + 5) % n)] if not ck.thorough else [(i, (i + a) % n, (i + b) % n) for a in range(1, n) for b in (1, 2, a + 1, a + 3)]
                for j, t in enumerate(triples):
                    for threads in (0, 2) if j == 0 else (0,):
                        cases.append({"declared": declared, "merge": md, "given": [list(gs[x]) for x in t], "threads": threads})
    ck.rule = "a state is one declared type with one triple of values of the catalogue (one per key), one way of handing them over, one place in the signature and one merge dtype; what the method receives is compared with the value given"
    ck.bounds = {"declared types": list(TYPES), "values": {d: len(given_values(d)) for d in TYPES}, "merge dtypes": merges}
    ck.cases("values", run_case, cases, chunk=1)
    ck.cases("refused", refused, [{"declared": d, "merge": m, "threads": t} for d in TYPES for m in merges for t in (0, 2)])
