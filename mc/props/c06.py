"""C06: block weights apply to exactly the keys of their block."""
import itertools
import re
from ..env import *
from ..core import h64, scratch

TARGET = {"sd1": "sd1-ldm", "sdxl": "sdxl-sgm"}
LAST = {"sd1": "OUT11", "sdxl": "OUT08"}


def block(arch, key):
    """The block table, by position in the original unet: written independently of the code under test."""
    unet = "model.diffusion_model."
    if not key.startswith(unet):
        return "VAE" if arch == "sdxl" and key.startswith("first_stage_model.") else "BASE"
    part = key[len(unet):].split(".")
    if part[0] in ("time_embed", "label_emb"):
        return "BASE"
    return {"input_blocks": lambda: "IN%02d" % int(part[1]), "middle_block": lambda: "M00", "output_blocks": lambda: "OUT%02d" % int(part[1]),
            "out": lambda: LAST[arch]}[part[0]]()


def blocks_of(arch):
    return sorted(model_configs.resolve(f"{arch}-supermerger_blocks").keys())


def run_merge(recipe, **kw):
    return sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=2 ** 16, strict_weight_space=False,
                          check_finite=False, omit_ema=False, tqdm=NoBar, **kw)


def weights(arch, drop=()):
    return {b: (i + 1) / 64 for i, b in enumerate(blocks_of(arch)) if b not in drop}


def table(case, s):
    """The converted dictionary: every key has its block's weight, blocks left out leave exactly their keys out."""
    arch = case["arch"]
    keys = list(model_configs.resolve(TARGET[arch]).keys())
    for drop in case["drops"]:
        w = weights(arch, drop)
        if case["how"] == "node":
            recipe = sd_mecha.convert(sd_mecha.literal(w, f"{arch}-supermerger_blocks"), TARGET[arch])
        elif case["how"] == "tensors":
            recipe = sd_mecha.convert(sd_mecha.model({k: torch.tensor(v) for k, v in w.items()}, f"{arch}-supermerger_blocks"), TARGET[arch])
        elif case["how"] == "to model":
            recipe = sd_mecha.convert(w, sd_mecha.model({}, TARGET[arch]))
        else:
            recipe = sd_mecha.convert(w, TARGET[arch])
        s.trace()
        got = run_merge(recipe)
        for k in keys:
            s.step()
            s.states.add(h64((arch, k)))
            b = block(arch, k)
            value = float(got[k]) if k in got else None
            if value != w.get(b):
                s.violation("weight" if b in w else "default", f"{arch} without {drop}: {k} of block {b} gets {value}, expected {w.get(b)}")
        if set(got) - set(keys):
            s.violation("surplus", f"{sorted(set(got) - set(keys))[:3]} appear")
    s.sample(case)


def merged(case, s):
    """Merging with block weights is merging each key with its block's weight."""
    arch = case["arch"]
    keys = list(model_configs.resolve(TARGET[arch]).keys())
    a = {k: torch.tensor([i + 1.0, -2.0], dtype=torch.float64) for i, k in enumerate(keys)}
    b = {k: torch.tensor([3.0, i + 5.0], dtype=torch.float64) for i, k in enumerate(keys)}
    if case["order"]:
        a, b = dict(reversed(list(a.items()))), dict(sorted(b.items()))
    w = weights(arch, case["drop"])
    ma, mb = sd_mecha.model(a, TARGET[arch]), sd_mecha.model(b, TARGET[arch])
    alpha = sd_mecha.convert(w, ma) if case["default"] is None else sd_mecha.convert(w, ma) | case["default"]
    method = {"weighted_sum": lambda: sd_mecha.weighted_sum(ma, mb, alpha), "slerp": lambda: sd_mecha.slerp(ma, mb, alpha=alpha),
              "add": lambda: sd_mecha.add_difference(ma, mb - ma, alpha=alpha)}[case["method"]]
    s.trace()
    got = run_merge(method())
    for k in keys:
        s.step()
        x = w.get(block(arch, k), case["default"])
        if x is None:
            if k in got:
                s.violation("default", f"{k} of the omitted block {block(arch, k)} is merged all the same")
            continue
        if k not in got:
            s.violation("lacks", f"{k} is missing in the merged model")
            continue
        if case["method"] == "slerp":
            one = run_merge(sd_mecha.slerp(sd_mecha.model({"k": a[k]}), sd_mecha.model({"k": b[k]}), alpha=x))["k"]
        else:
            one = a[k] * (1 - x) + b[k] * x
        if not torch.allclose(got[k], one, rtol=1e-9, atol=1e-9):
            s.violation("merged", f"{k} of block {block(arch, k)}, weight {x}: {got[k].tolist()} instead of {one.tolist()}")
        s.states.add(h64((arch, "m", k, case["method"])))


PARTS = {"table": table, "merged": merged}


def run(ck):
    ck.rule = "a state is one (architecture, key[, method]); its weight is compared with an independent table of blocks"
    cases = []
    for arch in TARGET:
        bs = blocks_of(arch)
        drops = [[]] + [[b] for b in bs] + [[x for x in bs if x != b] for b in bs]
        if ck.thorough:
            drops += [list(p) for p in itertools.combinations(bs, 2)]
        cases += [{"arch": arch, "how": how, "drops": drops[i:i + 4]} for how in ("node", "tensors") for i in range(0, len(drops), 4)]
        cases += [{"arch": arch, "how": how, "drops": [[], [bs[1]], [bs[-1]]] + [[x for x in bs if x not in keep] for keep in (["IN00"], ["BASE"], ["M00", "OUT03"], ["OUT00", "OUT01", "OUT02"], ["BASE", "IN01", "IN08", "M00", "OUT08"])]} for how in ("raw", "to model")]
    ck.bounds = {"architectures": 2, "keys": "all", "blocks left out": "none, each one, all but one" + (", each two" if ck.thorough else "")}
    ck.cases("table", table, cases, chunk=1)
    ck.cases("merged", merged, [{"arch": arch, "method": m, "drop": d, "default": z, "order": o} for arch in TARGET for m in ("weighted_sum", "add")
                                for d, z in (([], None), (["IN01"], None), (["OUT03", "BASE"], 0.25)) for o in (0, 1)]
             + ([{"arch": arch, "method": "slerp", "drop": [], "default": None, "order": 0} for arch in TARGET] if ck.thorough else []), chunk=1)
