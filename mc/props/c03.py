"""C03: LoRA models convert to the weight difference they encode, under both naming schemes, for every base config."""
import itertools
from ..env import *
from ..core import h64, scratch
from .c01 import correspondence

SCHEMES = {"lycoris": "lycoris", "kohya": "lora"}


def adaptable(base):
    return [k for k, m in model_configs.resolve(base).keys().items() if not k.endswith("bias") and m.dtype.is_floating_point]


def lora_name(scheme, key):
    parts = key.split(".")
    return SCHEMES[scheme] + "_" + "_".join(parts[:-1] if parts[-1] == "weight" else parts)


def run_merge(recipe):
    return sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=2 ** 16, strict_weight_space=False,
                          check_finite=False, omit_ema=False, tqdm=NoBar)


def names(case, s):
    """Every key of every base config, recognised under each scheme; a third of each triple missing in turn."""
    base, scheme = case["base"], case["scheme"]
    config = f"{base}_{scheme}_lora"
    keys = adaptable(base)
    if case["alias"]:
        keys = keys[::-1]
    ids = {}
    for k in keys:
        ids.setdefault(lora_name(scheme, k), len(ids) + 1)
    if case["hole"] is None:
        have = set(ids)
    else:
        have = {n for n, i in ids.items() if i % 4 != case["hole"]}
    sd = {}
    for n, i in ids.items():
        triple = {"alpha": torch.tensor(2.0, dtype=torch.float64), "lora_down.weight": torch.full((1, 2), 0.5, dtype=torch.float64),
                  "lora_up.weight": torch.full((3, 1), float(i), dtype=torch.float64)}
        if n not in have:
            triple.pop(sorted(triple)[i // 4 % 3])
        sd.update({f"{n}.{x}": t for x, t in triple.items()})
    if case["how"] == "file":
        path = pathlib.Path(scratch()) / "lora.safetensors"
        write_safetensors(path, sd)
        node = sd_mecha.model(path, config)
    elif case["how"] == "inferred":
        node = sd_mecha.model(sd)
    else:
        node = sd_mecha.model(sd, config)
    s.trace()
    recipe = sd_mecha.convert(node, base)
    if recipe.merge_space.identifier != "delta" or recipe.model_config.identifier != base:
        s.violation("kind", f"{config} converts to {recipe.merge_space} of {recipe.model_config}")
    got = run_merge(recipe)
    want = {k: torch.full((3, 2), float(ids[lora_name(scheme, k)]), dtype=torch.float64) for k in keys if lora_name(scheme, k) in have}
    for k in sorted(set(want) | set(got)):
        s.step()
        s.states.add(h64((base, scheme, k)))
        if k not in got:
            s.violation("lacks", f"{config}: {k} is adapted by {lora_name(scheme, k)} and missing in the result")
        elif k not in want:
            s.violation("surplus", f"{config}: {k} is not adapted and appears in the result")
        elif not torch.equal(got[k], want[k]):
            s.violation("value", f"{config}: {k} is {got[k].tolist()}, expected {want[k].tolist()}")
    s.sample({"config": config, "keys": len(keys), "hole": case["hole"]})


def fill_int(shape, seed):
    n = 1
    for d in shape:
        n *= d
    return ((torch.arange(n, dtype=torch.int64) * 7 + seed * 3) % 11 - 5).to(torch.float64).reshape(shape)


def compose(up, down, alpha):
    """sum over the rank of up[o, r] * down[r, i, ...], times alpha / rank, in exact integer arithmetic before scaling."""
    r = down.shape[0]
    u = up.reshape(up.shape[0], r)
    out = torch.zeros((up.shape[0],) + tuple(down.shape[1:]), dtype=torch.float64)
    for o in range(up.shape[0]):
        for j in range(r):
            out[o] += u[o, j] * down[j]
    return out * (alpha / r)


def values(case, s):
    base, scheme = case["base"], case["scheme"]
    keys = adaptable(base)
    dims = case["dims"]
    combos = [(o, i, r, k, a) for o in dims for i in dims for r in case["ranks"] for k in case["kernels"] for a in case["alphas"]]
    for start in range(0, len(combos), len(keys)):
        sd, want = {}, {}
        for key, (o, i, r, kernel, a) in zip(keys, combos[start:start + len(keys)]):
            up = fill_int((o, r) + ((1, 1) if kernel is not None else ()), o + r)
            down = fill_int((r, i) + tuple(kernel or ()), i + r + 1)
            n = lora_name(scheme, key)
            sd.update({f"{n}.alpha": torch.tensor(a, dtype=case["dtype"]), f"{n}.lora_up.weight": up.to(case["dtype"]), f"{n}.lora_down.weight": down.to(case["dtype"])})
            want[key] = (compose(up, down, a), (o, i, r, kernel, a))
        s.trace()
        got = run_merge(sd_mecha.convert(sd_mecha.model(sd, f"{base}_{scheme}_lora"), base))
        if set(got) != set(want):
            s.violation("keys", f"{len(got)} keys instead of {len(want)}")
        for k, t in got.items():
            w, what = want[k]
            s.step()
            s.states.add(h64(what))
            if t.shape != w.shape or not torch.allclose(t, w, rtol=1e-12, atol=1e-12):
                s.violation("values", f"up {what[0]}x{what[2]}, down {what[2]}x{what[1]}, kernel {what[3]}, alpha {what[4]}: {t.flatten()[:4].tolist()} "
                            f"{tuple(t.shape)} instead of {w.flatten()[:4].tolist()} {tuple(w.shape)}")
    s.sample({"layers": len(combos), "scheme": scheme})


def chained(case, s):
    """A LoRA in one format reaches another format of its base as the converted difference."""
    src, tgt, scheme = case["src"], case["tgt"], case["scheme"]
    table = correspondence(src, tgt)
    keys = [k for k in adaptable(src) if ".attn" not in k or "self_attn" in k]
    ids = {lora_name(scheme, k): i + 1 for i, k in enumerate(keys)}
    sd = {}
    for n, i in ids.items():
        sd.update({f"{n}.alpha": torch.tensor(1.0), f"{n}.lora_down.weight": torch.ones(1, 2), f"{n}.lora_up.weight": torch.full((2, 1), float(i))})
    delta = {k: torch.full((2, 2), float(ids[lora_name(scheme, k)]), dtype=torch.float64) for k in keys}
    s.trace()
    got = run_merge(sd_mecha.convert(sd_mecha.model(sd, f"{src}_{scheme}_lora"), tgt))
    want = {k: v for k, v in table.items() if set(v[0]) <= set(delta)}
    for k in sorted(set(want) | set(got)):
        s.step()
        s.states.add(h64((tgt, scheme, k)))
        if (k in got) != (k in want):
            s.violation("chain-keys", f"{src} lora to {tgt}: {k} {'lacks' if k in want else 'appears'}")
        elif not torch.equal(got[k], want[k][1]([delta[x] for x in want[k][0]])):
            s.violation("chain-value", f"{src} lora to {tgt}: {k} is wrong")


PARTS = {"names": names, "values": values, "chained": chained}


def run(ck):
    ck.rule = "a state is one (base config, scheme, key) or one layer (shapes, rank, kernel, alpha); every key is compared with the difference its LoRA encodes"
    bases = sorted(c.identifier for c in model_configs.get_all_base())
    ck.bounds = {"base configs": bases, "schemes": 2, "keys": "all"}
    cases = [{"base": b, "scheme": sch, "hole": h, "how": how, "alias": False} for b in bases for sch in SCHEMES
             for h, how in ([(None, "inferred"), (0, "literal"), (1, "file")] + ([(2, "literal"), (3, "literal"), (None, "file")] if ck.thorough else []))]
    ck.cases("names", names, cases, chunk=1)
    kernels = [None, (1, 1), (3, 3), (1, 3), (3, 1), (2, 2)]
    dims = (1, 2, 3) if not ck.thorough else (1, 2, 3, 4, 5)
    ck.cases("values", values, [
        {"base": "sd1-kohya", "scheme": sch, "dims": dims, "ranks": (1, 2, 3, 4), "kernels": [k], "alphas": (0.0, 0.5, 1.0, 3.0, -2.0, 16.0), "dtype": dt}
        for sch in SCHEMES for k in kernels for dt in (torch.float64, torch.float16, torch.bfloat16)], chunk=1)
    ck.cases("chained", chained, [{"src": a, "tgt": b, "scheme": sch} for a, b in (("sd1-kohya", "sd1-ldm"), ("sdxl-kohya", "sdxl-sgm"),
                                                                                   ("sdxl-diffusers_unet_only", "sdxl-sgm")) for sch in SCHEMES], chunk=1)
