"""X04: components, fallback and EMA exchange send every key where it belongs."""
import itertools
import pathlib
import threading
from .. import probes
from ..core import scratch
from ..env import *
from ..probes import P, Rt, Tn, SD
from sd_mecha.extensions.builtin import merge_methods as builtin

F = torch.float32
CALLS = []
LOCK = threading.Lock()


@sd_mecha.merge_method(identifier="mc_touch")
def mc_touch(a: P(Tn), name: P(str), **kwargs) -> Rt(Tn):
    """Records which operand is evaluated for which key."""
    with LOCK:
        CALLS.append((name, kwargs["key"]))
    return a


@sd_mecha.merge_method(identifier="mc_break")
def mc_break(a: P(Tn), how: P(str), **kwargs) -> Rt(Tn):
    """Fails on key k1, in a way that is not a missing key."""
    if kwargs["key"] == "k1":
        raise {"KeyError": KeyError, "ValueError": ValueError, "Runtime": RuntimeError, "Index": IndexError}[how]("broken on purpose")
    return a


def merge(recipe, **kw):
    out = {}
    opts = dict(merge_dtype=F, output_dtype=F, tqdm=NoBar, threads=0, omit_ema=False, strict_weight_space=False)
    sd_mecha.merge(recipe, output=out, **{**opts, **kw})
    return out


def tiny(keys, base=0):
    return {k: torch.tensor([float(base + i)]) for i, k in enumerate(keys)}


def expect(s, sig, what, got, want):
    s.trace()
    s.evaluations += len(want)
    if {k: v.tolist() for k, v in got.items()} != {k: v.tolist() for k, v in want.items()}:
        missing, extra = sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]
        wrong = [(k, got[k].tolist(), want[k].tolist()) for k in want if k in got and got[k].tolist() != want[k].tolist()][:5]
        s.violation(sig, f"{what}: missing {missing}, unexpected {extra}, wrong {wrong}")


def components(case, s):
    """Every registered config: each component picked and omitted, alone, joined and nested."""
    c = model_configs.resolve(case["config"])
    keys = list(c.keys())
    comps = {n: list(v.keys()) for n, v in c.components().items()}
    data = tiny(keys)
    model = lambda d=data: sd_mecha.model(d, c)
    s.state(case["config"])
    names = list(comps)
    if sum(len(v) for v in comps.values()) != len(keys):
        s.count("keys shared by components")
    for name in names:
        inside = set(comps[name])
        want_in = {k: v for k, v in data.items() if k in inside}
        want_out = {k: v for k, v in data.items() if k not in inside}
        s.state((case["config"], name))
        expect(s, "pick", f"{name} of {c.identifier} picked", merge(sd_mecha.pick_component(model(), name)), want_in)
        expect(s, "omit", f"{name} of {c.identifier} omitted", merge(sd_mecha.omit_component(model(), name)), want_out)
    first, last = names[0], names[-1]
    if case["light"]:
        return
    other = {k: v + 10000 for k, v in data.items()}
    inside = set(comps[first])
    expect(s, "pick-fallback", f"{first} picked from one {c.identifier}, the rest from another", merge(sd_mecha.pick_component(model(), first) | model(other)), {k: (data if k in inside else other)[k] for k in keys})
    expect(s, "omit-fallback", f"{first} omitted from one {c.identifier}, supplied by another", merge(sd_mecha.omit_component(model(), first) | model(other)), {k: (other if k in inside else data)[k] for k in keys})
    expect(s, "both", f"{first} of {c.identifier} picked or omitted", merge(sd_mecha.pick_component(model(), first) | sd_mecha.omit_component(model(other), first)), {k: (data if k in inside else other)[k] for k in keys})
    expect(s, "nested", f"{first} of {c.identifier} omitted, then {last}", merge(sd_mecha.omit_component(sd_mecha.omit_component(model(), first), last)), {k: v for k, v in data.items() if k not in inside and k not in comps[last]})
    expect(s, "picked twice", f"{first} picked from {last} of {c.identifier}", merge(sd_mecha.pick_component(sd_mecha.pick_component(model(), last), first)), {k: v for k, v in data.items() if k in inside and k in comps[last]})
    for wrong in ("no-such-component", "", first + "x", first.upper()):
        for fn in (sd_mecha.pick_component, sd_mecha.omit_component):
            s.trace()
            try:
                got = merge(fn(model(), wrong))
            except Exception:
                continue
            s.violation("unknown", f"{fn.identifier} accepts the component {wrong!r} of {c.identifier}: {len(got)} keys")
    s.sample({"config": c.identifier, "components": {n: len(v) for n, v in comps.items()}})


CONF = model_configs.ModelConfigImpl("zzx-four", {"x": {k: {"shape": [1], "dtype": "float32"} for k in ("k0", "k1")}, "y": {k: {"shape": [1], "dtype": "float32"} for k in ("k2",)}, "z": {"k3": {"shape": [1], "dtype": "float32"}}})
KEYS = ("k0", "k1", "k2", "k3")
COMP = {"x": {"k0", "k1"}, "y": {"k2"}, "z": {"k3"}}


def give(d, kind, i):
    if kind == "file":
        path = pathlib.Path(scratch()) / f"x04_{i}.safetensors"
        write_safetensors(path, d)
        return sd_mecha.model(path, CONF)
    if kind == "literal":
        return sd_mecha.literal(d, CONF, "weight")
    return sd_mecha.model(d, CONF)


SHAPES = {
    "a|b": (2, lambda f: f(0) | f(1), lambda g: g(0) or g(1)),
    "fallback(a, b)": (2, lambda f: sd_mecha.fallback(f(0), f(1)), lambda g: g(0) or g(1)),
    "a|b|c": (3, lambda f: f(0) | f(1) | f(2), lambda g: g(0) or g(1) or g(2)),
    "a|(b|c)": (3, lambda f: f(0) | (f(1) | f(2)), lambda g: g(0) or g(1) or g(2)),
    "pick x a|b": (2, lambda f: sd_mecha.pick_component(f(0), "x") | f(1), lambda g: g(0, "x") or g(1)),
    "omit x a|b": (2, lambda f: sd_mecha.omit_component(f(0), "x") | f(1), lambda g: g(0, "yz") or g(1)),
    "a|pick x b": (2, lambda f: f(0) | sd_mecha.pick_component(f(1), "x"), lambda g: g(0) or g(1, "x")),
    "pick x(a|b)": (2, lambda f: sd_mecha.pick_component(f(0) | f(1), "x"), lambda g: g(0, "x") or g(1, "x")),
    "avg(a, b)|c": (3, lambda f: sd_mecha.n_average(f(0), f(1)) | f(2), lambda g: (("avg", 0, 1) if g(0) and g(1) else None) or g(2)),
    "a|avg(b, c)": (3, lambda f: f(0) | sd_mecha.n_average(f(1), f(2)), lambda g: g(0) or (("avg", 1, 2) if g(1) and g(2) else None)),
}


def presence(case, s):
    """All patterns of which operand has which key; also which operands are looked at for a key."""
    n, make, pick = SHAPES[case["shape"]]
    own = [list(p) for r in range(5) for p in itertools.combinations(KEYS, r)]
    if case.get("few"):
        own = [[], ["k0"], ["k1", "k2"], list(KEYS)]
    for pattern in itertools.product(own, repeat=n):
        if tuple(pattern[0]) not in {tuple(x) for x in case["first"]}:
            continue
        models = [{k: torch.tensor([100.0 * (i + 1) + KEYS.index(k)]) for k in ks} for i, ks in enumerate(pattern)]
        nodes = {}

        def f(i):
            if i not in nodes:
                nodes[i] = mc_touch(give(models[i], case["kind"], i), f"m{i}")
            return nodes[i]
        CALLS.clear()
        got = merge(make(f), threads=case["threads"])
        want, looked = {}, set()
        for k in KEYS:
            def g(i, comps="xyz"):
                if not any(k in COMP[c] for c in comps):
                    return None
                if k in models[i]:
                    looked.add((f"m{i}", k))
                    return ("is", i)
                return None
            v = pick(g)
            if v:
                want[k] = models[v[1]][k] if v[0] == "is" else (models[v[1]][k] + models[v[2]][k]) / 2
        s.state((case["shape"], str(pattern), case["kind"], case["threads"]))
        expect(s, "presence", f"{case['shape']} where the operands have {pattern} ({case['kind']}, threads {case['threads']})", got, want)
        if case["kind"] != "file" and "avg" not in case["shape"] and set(CALLS) != looked:
            s.violation("consulted", f"{case['shape']} where the operands have {pattern}: evaluated {sorted(set(CALLS))}, needed {sorted(looked)}")
    s.sample({k: case[k] for k in ("shape", "kind", "threads")})


def errors(case, s):
    """Only a missing key makes the second operand be used; any other failure of the first one surfaces."""
    full = {k: torch.tensor([1.0]) for k in KEYS}
    other = {k: torch.tensor([2.0]) for k in KEYS}
    for how in ("KeyError", "ValueError", "Runtime", "Index"):
        for threads in (0, 2):
            s.trace()
            s.state((how, threads))
            r = mc_break(sd_mecha.model(full, CONF), how) | sd_mecha.model(other, CONF)
            try:
                got = merge(r, threads=threads)
            except Exception as e:
                if "broken on purpose" not in str(e):
                    s.violation("error", f"a {how} of the first operand becomes {e!r}")
                continue
            s.violation("error", f"a {how} of the first operand is hidden by the fallback: {got}")
    # the second operand may be broken as long as it is not needed
    for lacking in ([], ["k1"], ["k2"]):
        first = {k: v for k, v in full.items() if k not in lacking}
        s.trace()
        s.state(tuple(lacking))
        try:
            got = merge(sd_mecha.model(first, CONF) | mc_break(sd_mecha.model(other, CONF), "ValueError"))
        except Exception as e:
            if "k1" not in lacking:
                s.violation("eager", f"the second operand fails although it is not needed for {lacking}: {e!r}")
            continue
        if "k1" in lacking:
            s.violation("eager", f"the second operand is needed for k1 and fails, but the merge gives {got}")
        elif got != {k: (full if k not in lacking else other)[k] for k in KEYS}:
            s.violation("error", f"{got}")


def numbers(case, s):
    """Fallback of parameters: numbers per key with a default."""
    for keys in itertools.chain.from_iterable(itertools.combinations(KEYS, r) for r in range(5)):
        for default in (0.25, 1, 0):
            per = {k: 0.5 + 0.125 * i for i, k in enumerate(keys)}
            alpha = sd_mecha.literal(per, CONF, "param") | default if keys else default
            a, b = {k: torch.tensor([0.0]) for k in KEYS}, {k: torch.tensor([16.0]) for k in KEYS}
            got = merge(sd_mecha.weighted_sum(sd_mecha.model(a, CONF), sd_mecha.model(b, CONF), alpha=alpha))
            s.state((keys, default))
            expect(s, "numbers", f"alpha {per} or else {default}", got, {k: torch.tensor([16.0 * per.get(k, default)]) for k in KEYS})


def counterpart(keys):
    """weight key -> EMA key of sd1-ldm, from the naming rule of the EMA tensors."""
    emas = {k for k in keys if k.startswith("model_ema.")}
    out = {}
    for k in keys:
        if k.startswith("model.") and not k.startswith("model_ema."):
            e = "model_ema." + "".join(k[len("model."):].split("."))
            if e in emas:
                out[k] = e
    return out


def ema(case, s):
    """Every key of sd1-ldm: each weight is exchanged with its EMA tensor, the others stay; twice is the identity."""
    c = model_configs.resolve("sd1-ldm")
    keys = list(c.keys())
    pairs = counterpart(keys)
    if len(pairs) < 600:
        s.inconclusive.append("the EMA keys of sd1-ldm do not follow the expected naming")
        s.count("inconclusive")
    swap = {**pairs, **{e: k for k, e in pairs.items()}}
    data = tiny(keys)
    lacking = case["lacking"]
    if lacking == "ema":
        data = {k: v for k, v in data.items() if k not in pairs.values()}
    elif lacking == "weights":
        data = {k: v for k, v in data.items() if k not in pairs}
    elif lacking == "some":
        data = {k: v for i, (k, v) in enumerate(data.items()) if i % 3}
    want = {k: data[swap.get(k, k)] for k in keys if swap.get(k, k) in data}
    s.state(lacking)
    once = merge(builtin.exchange_ema(sd_mecha.model(data, c)))
    expect(s, "ema", f"exchange_ema of sd1-ldm (lacking {lacking})", once, want)
    expect(s, "ema-twice", f"exchange_ema twice (lacking {lacking})", merge(builtin.exchange_ema(builtin.exchange_ema(sd_mecha.model(data, c)))), data)
    expect(s, "ema-again", f"exchange_ema of the result of exchange_ema (lacking {lacking})", merge(builtin.exchange_ema(sd_mecha.model(dict(once), c))), data)
    s.sample({"lacking": lacking, "pairs": len(pairs), "keys": len(keys)})


def no_ema(case, s):
    """A config without EMA tensors: nothing to exchange."""
    c = model_configs.resolve(case["config"])
    data = tiny(list(c.keys()))
    s.state(case["config"])
    expect(s, "no-ema", f"exchange_ema of {c.identifier}", merge(builtin.exchange_ema(sd_mecha.model(data, c))), data)


PARTS = {"components": components, "presence": presence, "errors": errors, "numbers": numbers, "ema": ema, "no_ema": no_ema}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one merge: a component of a config picked or omitted, or one pattern of keys present in the operands; every key of the result is compared with its set definition"
    ck.assumptions = []
    every = sorted(c.identifier for c in model_configs.get_all())
    ck.bounds = {"configs": len(every), "keys of the synthetic config": 4}
    size = {c: len(model_configs.resolve(c).keys()) for c in every}
    ck.cases("components", components, [{"config": c, "light": not T and size[c] > 1400} for c in every if T or size[c] < 3000], chunk=1, limit=600)
    cases = []
    for shape, (n, _, _) in SHAPES.items():
        own = [list(p) for r in range(5) for p in itertools.combinations(KEYS, r)]
        few = [[], ["k0"], ["k1", "k2"], list(KEYS)]
        for kind in ("memory", "literal", "file"):
            for threads in (0, 2):
                if not T and threads and kind != "memory":
                    continue
                small = (n == 3 and not T) or (kind == "file" and not T) or (threads and not T)
                pool = few if small else own
                cases += [{"shape": shape, "kind": kind, "threads": threads, "few": small, "first": [p]} for p in pool]
    ck.cases("presence", presence, cases, chunk=4, limit=600)
    ck.cases("errors", errors, [{}])
    ck.cases("numbers", numbers, [{}])
    ck.cases("ema", ema, [{"lacking": x} for x in (None, "ema", "weights", "some")], chunk=1, limit=600)
    ck.cases("no_ema", no_ema, [{"config": c} for c in every if c != "sd1-ldm" and (T or "lora" not in c and len(model_configs.resolve(c).keys()) < 1500)], chunk=1, limit=600)
