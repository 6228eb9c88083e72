"""M05: the output has exactly the keys the options ask for."""
import itertools
from .. import probes
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

CONFIG = "zzk-e"
SPEC = {
    "c": {"m": {}, "o": {"optional": True}, "l": {"aliases": ["l_one", "l_two"]}},
    "ema": {"e": {"optional": True}},
}
ALIASES = {"l": ["l_one", "l_two"]}
CANON = {"l_one": "l", "l_two": "l"}
KEYS = ["m", "o", "l", "e"]
MANDATORY = ["m", "l"]
UNKNOWN = ["u", "v"]
NAMES = ["m", "o", "l", "l_one", "l_two", "e", "u", "v"]


def ensure_config():
    spec = {c: {k: {"shape": [2], "dtype": "float32"} | a for k, a in ks.items()} for c, ks in SPEC.items()}
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, spec))
    except ValueError:
        pass


def content(i, name):
    return float(1 + 16 * i + NAMES.index(name)) * 2


def leaf(i, names, kind, root, space="weight", config=CONFIG):
    data = {k: torch.full((2,), content(i, k)) for k in names}
    if kind == "file":
        path = root / f"m05_{i}.safetensors"
        write_safetensors(path, data)
        return sd_mecha.model(path, config, space)
    if kind == "literal":
        return sd_mecha.literal(data, config, space)
    return sd_mecha.model(data, config, space)


def find(models, i, key):
    """The value of one model at a key of the config, under its name or the first alias present; or at an unknown name."""
    for name in [key, *ALIASES.get(key, [])]:
        if name in models[i]:
            return content(i, name)
    return None


def avg(x, y):
    return None if x is None or y is None else (x + y) / 2


# shape -> (recipe over leaves, value over lookups, keyword arguments)
SHAPES = {
    "one": (1, lambda f: f(0), lambda g: g(0)),
    "scaled": (1, lambda f: probes.mc_scale(f(0), f=0.5), lambda g: None if g(0) is None else g(0) / 2),
    "average": (2, lambda f: sd_mecha.n_average(f(0), f(1)), lambda g: avg(g(0), g(1))),
    "average swapped": (2, lambda f: sd_mecha.n_average(f(1), f(0)), lambda g: avg(g(0), g(1))),
    "fallback": (2, lambda f: f(0) | f(1), lambda g: g(1) if g(0) is None else g(0)),
    "first only": (2, lambda f: sd_mecha.weighted_sum(f(0), f(1), 0.0), lambda g: g(0)),
    "second only": (2, lambda f: sd_mecha.weighted_sum(f(0), f(1), 1.0), lambda g: g(1)),
    "difference": (2, lambda f: f(0) + (f(1) - f(0)), lambda g: None if g(0) is None else g(1)),
    "fallback in average": (2, lambda f: sd_mecha.n_average(f(0) | f(1), f(1)), lambda g: avg(g(1) if g(0) is None else g(0), g(1))),
    "fallback option": (2, lambda f: f(0), lambda g: g(1) if g(0) is None else g(0)),
    "fallback option of average": (2, lambda f: sd_mecha.n_average(f(0), f(0)), lambda g: g(1) if g(0) is None else g(0)),
    "plus a delta": (2, lambda f: f(0) + f(1), lambda g: None if g(0) is None or g(1) is None else g(0) + g(1)),
    "plus half a delta": (2, lambda f: sd_mecha.add_difference(f(0), f(1), alpha=0.5), lambda g: None if g(0) is None or g(1) is None else g(0) + g(1) / 2),
    "deltas only": (2, lambda f: sd_mecha.n_average(f(0), f(1)), lambda g: avg(g(0), g(1))),
    "delta of models": (2, lambda f: f(0) - f(1), lambda g: None if g(0) is None or g(1) is None else g(0) - g(1)),
    "a model as parameter": (2, lambda f: sd_mecha.weighted_sum(f(0), f(0), alpha=f(1)), lambda g: None if g(0) is None or g(1) is None else g(0)),
}
# merge spaces of the leaves that are not in weight space
SPACES = {"plus a delta": {1: "delta"}, "plus half a delta": {1: "delta"}, "deltas only": {0: "delta", 1: "delta"}, "a model as parameter": {1: "param"}}
# leaves whose keys are forwarded: those in the merge space of the output
FORWARDED = {"plus a delta": [0], "plus half a delta": [0], "delta of models": [], "a model as parameter": [0]}


def expected(shape, models, extra, ema):
    n, _, value = SHAPES[shape]
    names = set(KEYS)
    if extra:
        names |= {k for i in FORWARDED.get(shape, range(n)) for k in models[i] if k not in KEYS and k not in CANON}
    want = {}
    for k in names:
        v = value(lambda i: find(models, i, k))
        if v is not None:
            want[k] = {v}
        elif extra:
            # merely forwarded, from any model that has it
            have = {find(models, i, k) for i in FORWARDED.get(shape, range(n))} - {None}
            if have:
                want[k] = have
    if ema:
        want.pop("e", None)
    return want


def matches(got, want):
    if not set(got) <= set(want):
        return f"has {sorted(set(got) - set(want))}"
    lacking = set(want) - set(got)
    if lacking:
        return f"lacks {sorted(lacking)}"
    for k, v in got.items():
        vals = set(v.to(torch.float64).tolist())
        if len(vals) != 1 or not vals <= want[k]:
            return f"{k} = {v.tolist()}, expected {want[k]}"


def one(shape, models, opts, kind, to_file, threads, root):
    kw = dict(threads=threads, total_buffer_size=256, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar, **opts)
    leaves = [leaf(i, m, kind, root, SPACES.get(shape, {}).get(i, "weight")) for i, m in enumerate(models)]
    if shape in ("deltas only", "delta of models"):
        kw["strict_weight_space"] = False
    recipe = SHAPES[shape][1](lambda i: leaves[i])
    if "option" in shape:
        kw["fallback_model"] = leaves[1]
    if to_file:
        path = root / "m05_out.safetensors"
        sd_mecha.merge(recipe, output=path, **kw)
        out, _ = parse_safetensors(path.read_bytes())
        return {k: torch.frombuffer(bytearray.fromhex(v[2]), dtype=DT[v[0]]).reshape(v[1]) for k, v in out.items()}
    return sd_mecha.merge(recipe, **kw)


def lacks_mandatory(names):
    return any(k not in names and not any(a in names for a in ALIASES.get(k, [])) for k in MANDATORY)


OPTIONS = [{k: v for k, v in (("omit_extra_keys", x), ("omit_ema", e), ("check_mandatory_keys", c)) if v is not ...}
           for x in (..., True, False) for e in (..., True, False) for c in (..., True, False)]


def keys(case, s):
    ensure_config()
    root = pathlib.Path(scratch())
    for shape, models, n in case["runs"]:
        for o in case["options"]:
            opts = OPTIONS[o]
            kind = ("memory", "file", "literal")[n % 3] if case["kind"] == "any" else case["kind"]
            to_file, threads = case.get("to_file", False), (0, 2)[(n + o) % 7 == 0]
            extra = not opts.get("omit_extra_keys", True)
            ema = opts.get("omit_ema", not extra)
            reject = opts.get("check_mandatory_keys", False) and any(lacks_mandatory(m) for m in models)
            where = f"{shape} {models} {opts} ({kind}{', to a file' if to_file else ''})"
            s.trace()
            s.state((shape, models, o))
            try:
                got = one(shape, models, opts, kind, to_file, threads, root)
            except Exception as e:
                if not reject:
                    s.violation(f"error-{type(e).__name__}", f"{where}: {e!r}")
                elif not isinstance(e, RuntimeError):
                    s.violation("rejection", f"{where}: rejected with {e!r} instead of RuntimeError")
                continue
            if reject:
                s.violation("accepted", f"{where}: a model lacks a mandatory key and is accepted")
                continue
            s.step(len(got))
            bad = matches(got, expected(shape, models, extra, ema))
            if bad:
                s.violation("keys", f"{where}: the output {bad}")
    s.sample({"run": case["runs"][-1], "options": [OPTIONS[o] for o in case["options"]]})


def builtin(case, s):
    """A full-size model of a registered config, plus unknown keys."""
    cfg = model_configs.resolve(case["config"])
    alias = {k: list(v.aliases)[0] for k, v in cfg.keys().items() if list(v.aliases)}
    ema = set(cfg.components()["ema"].keys()) if "ema" in cfg.components() else set()
    names = list(cfg.keys())
    optional = {k for k, v in cfg.keys().items() if v.optional}
    drop = set()
    if case["drop"] == "optional":
        drop = optional
    elif case["drop"] == "one mandatory":
        drop = {[k for k in names if k not in optional][case["which"]]}
    elif case["drop"] == "third":
        drop = set(names[::3])
    data = {(alias.get(k, k) if case["alias"] else k): torch.ones(1) for k in names if k not in drop}
    data["zz.unknown.weight"] = torch.ones(1)
    for opts in OPTIONS[::case["every"]]:
        extra = not opts.get("omit_extra_keys", True)
        want = (set(names) - drop) | ({"zz.unknown.weight"} if extra else set())
        if opts.get("omit_ema", not extra):
            want -= ema
        reject = opts.get("check_mandatory_keys", False) and bool(drop - optional)
        s.trace()
        s.step(len(names))
        s.state((case["config"], case["drop"], case["alias"], str(opts)))
        where = f"{case} {opts}"
        try:
            got = sd_mecha.merge(probes.mc_scale(sd_mecha.model(data, case["config"])), threads=0, total_buffer_size=64, tqdm=NoBar, strict_weight_space=False, **opts)
        except Exception as e:
            if not reject:
                s.violation(f"error-{type(e).__name__}", f"{where}: {e!r}")
            continue
        if reject:
            s.violation("accepted", f"{where}: a mandatory key is missing and the model is accepted")
        elif set(got) != want:
            s.violation("keys", f"{where}: the output has {sorted(set(got) - want)[:3]} and lacks {sorted(want - set(got))[:3]}")


PARTS = {"keys": keys, "builtin configs": builtin}


def subsets(names):
    return [[k for k, b in zip(names, bits) if b] for bits in itertools.product((0, 1), repeat=len(names))]


def run(ck):
    cases = []
    single = [m for m in subsets(["m", "o", "l", "l_one", "l_two", "e", "u"]) if m]
    runs = [("one", [m], n) for n, m in enumerate(single)] + [("scaled", [m], n + 1) for n, m in enumerate(single)]
    every = list(range(len(OPTIONS)))
    cases += [{"runs": runs[i:i + 8], "options": every, "kind": "any"} for i in range(0, len(runs), 8)]
    cases += [{"runs": runs[i:i + 16], "options": every[1::5], "kind": "any", "to_file": True} for i in range(0, len(runs), 16)]
    plain = [m for m in subsets(["m", "o", "e", "u"])]
    aliased = [m for m in subsets(["m", "l", "l_two", "v"])] if not ck.thorough else [m for m in subsets(["m", "l", "l_one", "l_two", "e", "v"])]
    two = [("l",), ("l_one",)]
    pairs = [[a + ["l"], b + ["l_two"]] for a in plain for b in plain]
    pairs += [[a, b] for a in aliased for b in aliased if a and b]
    pairs += [[["m", "l", "u"], ["m", "l", "v"]], [["u"], ["v"]], [["l", "u"], ["m", "e"]]]
    shapes = [n for n, v in SHAPES.items() if v[0] == 2]
    runs = [(sh, p, n) for sh in shapes for n, p in enumerate(pairs)]
    opts = [0, 13, 20, 23, 26] if not ck.thorough else list(range(0, 27, 2))
    cases += [{"runs": runs[i:i + 40], "options": opts[:3], "kind": "memory"} for i in range(0, len(runs), 40)]
    some = runs if ck.thorough else runs[::7]
    cases += [{"runs": some[i:i + 20], "options": opts, "kind": "any"} for i in range(0, len(some), 20)]
    cases += [{"runs": some[i:i + 20], "options": opts[:2], "kind": "any", "to_file": True} for i in range(0, len(some), 20)]
    ck.rule = "a state is (recipe shape, key sets of the inputs, options); the keys and values of the real merge are compared with set definitions"
    ck.bounds = {"names": NAMES, "key sets of one model": len(single), "pairs of key sets": len(pairs), "shapes": list(SHAPES), "option combinations": len(OPTIONS)}
    ck.cases("keys", keys, cases, chunk=1)
    ids = [c.identifier for c in model_configs.get_all()]
    full = [i for i in ids if not i.endswith("lora") and "kohya_lora" not in i]
    pick = full if ck.thorough else [i for i in full if i in ("sd1-ldm", "sdxl-sgm")] + full[:1]
    cases = [{"config": i, "alias": a, "drop": d, "which": w, "every": 1 if ck.thorough else 4} for i in dict.fromkeys(pick) for a in (False, True)
             for d, w in (("", 0), ("optional", 0), ("one mandatory", 0), ("one mandatory", -1), ("third", 0))]
    ck.cases("builtin configs", builtin, cases, chunk=1)
