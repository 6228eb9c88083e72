"""C01: the builtin conversions map every key, to one source each, with its shape.

The oracle is written from the source formats to the target formats (the code rewrites names the other way round), from
the published correspondence of the formats, and every target key is compared exactly with the tensors it comes from.
"""
import re
from ..env import *
from ..core import h64, scratch

CONVERSIONS = [
    ("sd1-kohya", "sd1-ldm"), ("sdxl-kohya", "sdxl-sgm"), ("sdxl-diffusers_unet_only", "sdxl-sgm"),
    ("flux-flux", "flux-flux_diffuser_only"), ("flux-flux_diffuser_only", "flux-flux"),
]


# ------------------------------------------------------------------ the formats, from source name to target name
def unet(name, levels, ups):
    """diffusers unet name -> original name (without prefix). levels: number of down blocks, ups: resnets per up block."""
    downs = ups - 1
    flat = {"time_embedding.linear_1": "time_embed.0", "time_embedding.linear_2": "time_embed.2", "add_embedding.linear_1": "label_emb.0.0",
            "add_embedding.linear_2": "label_emb.0.2", "conv_in": "input_blocks.0.0", "conv_norm_out": "out.0", "conv_out": "out.2"}
    head, _, leaf = name.rpartition(".")
    if head in flat:
        return f"{flat[head]}.{leaf}"
    parts = name.split(".")
    block = parts[0]
    if block == "mid_block":
        kind, i, rest = parts[1], int(parts[2]), parts[3:]
        slot = "middle_block.1" if kind == "attentions" else f"middle_block.{0 if i == 0 else 2}"
    else:
        b, kind, i, rest = int(parts[1]), parts[2], int(parts[3]), parts[4:]
        if block == "down_blocks":
            number = 1 + b * (downs + 1) + (downs if kind == "downsamplers" else i)
            if kind == "downsamplers":
                return f"input_blocks.{number}.0.op.{rest[-1]}"
            slot = f"input_blocks.{number}.{0 if kind == 'resnets' else 1}"
        else:
            number = b * ups + (ups - 1 if kind == "upsamplers" else i)
            if kind == "upsamplers":
                # last of its sequential: after the resnet and, where there is one, the attention
                has_attention = (b > 0) if levels == 4 else (b < 2)
                return f"output_blocks.{number}.{2 if has_attention else 1}.conv.{rest[-1]}"
            slot = f"output_blocks.{number}.{0 if kind == 'resnets' else 1}"
    if kind == "resnets":
        inner = {"norm1": "in_layers.0", "conv1": "in_layers.2", "time_emb_proj": "emb_layers.1", "norm2": "out_layers.0", "conv2": "out_layers.3",
                 "conv_shortcut": "skip_connection"}
        return f"{slot}.{inner[rest[0]]}.{rest[1]}"
    return ".".join([slot] + rest)


def vae(name):
    """diffusers vae name -> (original name, tensor function)."""
    same = lambda t: t
    parts = name.split(".")
    if len(parts) == 2 or parts[1] in ("conv_in", "conv_out"):
        return name, same
    side = parts[0]
    if parts[1] == "conv_norm_out":
        return f"{side}.norm_out.{parts[2]}", same
    if parts[1] == "mid_block":
        if parts[2] == "resnets":
            return f"{side}.mid.block_{int(parts[3]) + 1}." + ".".join(parts[4:]), same
        inner = {"group_norm": "norm", "to_q": "q", "to_k": "k", "to_v": "v", "to_out": "proj_out"}[parts[4]]
        matrix = inner != "norm" and parts[-1] == "weight"
        return f"{side}.mid.attn_1.{inner}.{parts[-1]}", (lambda t: t[:, :, None, None]) if matrix else same
    level = int(parts[2])
    where = f"{side}.down.{level}" if parts[1] == "down_blocks" else f"{side}.up.{3 - level}"
    if parts[3] == "resnets":
        inner = parts[5] if parts[5] != "conv_shortcut" else "nin_shortcut"
        return f"{where}.block.{parts[4]}.{inner}.{parts[-1]}", same
    return f"{where}.{'downsample' if parts[1] == 'down_blocks' else 'upsample'}.conv.{parts[-1]}", same


def open_clip(name):
    """transformers text encoder 2 name -> open clip name, part of a stacked projection or None."""
    m = re.fullmatch(r"text_model\.encoder\.layers\.(\d+)\.(.*)", name)
    if not m:
        return {"text_projection.weight": "text_projection", "text_model.embeddings.token_embedding.weight": "token_embedding.weight",
                "text_model.embeddings.position_embedding.weight": "positional_embedding", "text_model.final_layer_norm.weight": "ln_final.weight",
                "text_model.final_layer_norm.bias": "ln_final.bias"}[name], None
    n, rest = m.groups()
    base = f"transformer.resblocks.{n}"
    m = re.fullmatch(r"self_attn\.([qkv])_proj\.(weight|bias)", rest)
    if m:
        return f"{base}.attn.in_proj_{m[2]}", "qkv".index(m[1])
    head, leaf = rest.rsplit(".", 1)
    return f"{base}." + {"self_attn.out_proj": "attn.out_proj", "mlp.fc1": "mlp.c_fc", "mlp.fc2": "mlp.c_proj", "layer_norm1": "ln_1",
                         "layer_norm2": "ln_2"}[head] + f".{leaf}", None


def correspondence(src, tgt):
    """{target key: (tuple of source keys, function of their tensors)}, from the names of the source config."""
    out, stacked = {}, {}
    one = lambda f: (lambda ts: f(ts[0]))
    same = one(lambda t: t)
    for k in model_configs.resolve(src).keys():
        if src == "flux-flux":
            if k.startswith("model.diffusion_model."):
                out[k[len("model.diffusion_model."):]] = ((k,), same)
        elif src == "flux-flux_diffuser_only":
            out["model.diffusion_model." + k] = ((k,), same)
        elif src == "sdxl-diffusers_unet_only":
            out["model.diffusion_model." + unet(k, 3, 3)] = ((k,), same)
        elif src == "sd1-kohya":
            part, rest = k.split(".", 1)
            if part == "unet":
                out["model.diffusion_model." + unet(rest, 4, 3)] = ((k,), same)
            elif part == "te":
                out["cond_stage_model.transformer." + rest] = ((k,), same)
            else:
                name, f = vae(rest)
                out["first_stage_model." + name] = ((k,), one(f))
        else:  # sdxl-kohya: the unet and the vae keep their original names
            part, rest = k.split(".", 1)
            if part == "unet":
                out["model.diffusion_model." + rest] = ((k,), same)
            elif part == "te1":
                out["conditioner.embedders.0.transformer." + rest] = ((k,), same)
            elif part == "te2":
                name, index = open_clip(rest)
                name = "conditioner.embedders.1.model." + name
                if index is not None:
                    stacked.setdefault(name, {})[index] = k
                else:
                    out[name] = ((k,), one(lambda t: t.transpose(0, 1)) if name.endswith("text_projection") else same)
            else:
                out[k] = ((k,), same)
    for name, parts in stacked.items():
        out[name] = (tuple(parts[i] for i in range(3)), lambda ts: torch.cat(list(ts), 0))
    target = model_configs.resolve(tgt).keys()
    return {k: v for k, v in out.items() if k in target}


# ------------------------------------------------------------------ models
def small(src):
    """A complete model with unique content, every dimension other than 1 shrunk to 2 or 3."""
    out = {}
    for i, (k, m) in enumerate(model_configs.resolve(src).keys().items()):
        shape = [1 if d == 1 else 2 + (len(m.shape) > 1 and j == 1) for j, d in enumerate(m.shape)]
        if "text_projection" in k or "in_proj" in k:
            shape = [2, 3][:len(shape)]
        n = 1
        for d in shape:
            n *= d
        out[k] = (torch.arange(n, dtype=torch.float64) + 16 * (i + 1)).reshape(shape)
    return out


def quiet_merge(recipe, **kw):
    return sd_mecha.merge(recipe, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, threads=0, total_buffer_size=2 ** 16, check_finite=False, tqdm=NoBar, **kw)


def judge(s, sig, got, want, sd, note=""):
    for k in sorted(set(want) | set(got)):
        s.step()
        s.states.add(h64((sig, k)))
        if k not in got:
            s.violation(f"{sig}-lacks", f"{note}: {k} is missing, should come from {want[k][0]}")
        elif k not in want:
            s.violation(f"{sig}-surplus", f"{note}: {k} appears, no source tensor represents it")
        else:
            v = want[k][1]([sd[x] for x in want[k][0]])
            if v.shape != got[k].shape or v.dtype != got[k].dtype or not torch.equal(v, got[k]):
                s.violation(f"{sig}-content", f"{note}: {k} is not the content of {want[k][0]}: {got[k].flatten()[:4]}, shape {tuple(got[k].shape)}")


def complete(case, s):
    src, tgt = case["src"], case["tgt"]
    table = correspondence(src, tgt)
    sd = small(src)
    used = {x for v in table.values() for x in v[0]}
    # sanity of the oracle itself: it explains the configs completely and one to one
    unrepresented = [k for k in sd if k not in used]
    sources = [x for v in table.values() for x in v[0]]
    if len(sources) != len(set(sources)):
        s.violation("oracle", "the correspondence uses a source twice")
    if unrepresented and src != "flux-flux":
        s.violation("unused", f"source tensors {unrepresented[:5]} have no target in {tgt}")
    lacking = [k for k, m in model_configs.resolve(tgt).keys().items() if not m.optional and k not in table]
    parts = {".".join(k.split(".")[:2]) for k in lacking}
    allowed = {"sdxl-diffusers_unet_only": ("conditioner.", "first_stage_model."), "flux-flux_diffuser_only": ("text_encoders.", "vae.")}.get(src, ())
    if any(not k.startswith(allowed) for k in lacking):
        s.violation("unreachable", f"target keys {[k for k in lacking if not k.startswith(allowed)][:5]} cannot be produced from {src}")
    s.count("target keys", len(table))
    s.cmax("target parts out of the format", len(parts))
    root = pathlib.Path(scratch())
    for how in case["how"]:
        if how == "file":
            write_safetensors(root / "m.safetensors", sd)
            recipe = sd_mecha.convert(sd_mecha.model(root / "m.safetensors", src), tgt)
        elif how == "inferred":
            recipe = sd_mecha.convert(sd_mecha.model(sd), tgt)
        elif how == "raw":
            recipe = sd_mecha.convert(sd, tgt)
        else:
            recipe = sd_mecha.convert(sd_mecha.model(sd, src), tgt)
        s.trace()
        got = quiet_merge(recipe, strict_weight_space=how != "raw")  # a bare dictionary is a parameter
        judge(s, how, got, table, sd, f"{src} to {tgt} ({how})")
    s.sample({"conversion": f"{src} to {tgt}", "target keys": len(table), "source keys": len(sd)})


def shapes(case, s):
    """True shapes, without data."""
    src, tgt = case["src"], case["tgt"]
    sd = {k: torch.empty(m.shape, dtype=m.dtype, device="meta") for k, m in model_configs.resolve(src).keys().items()}
    s.trace()
    got = quiet_merge(sd_mecha.convert(sd_mecha.model(sd, src), tgt))
    target = model_configs.resolve(tgt).keys()
    for k, v in got.items():
        s.step()
        if tuple(v.shape) != tuple(target[k].shape):
            s.violation("shape", f"{src} to {tgt}: {k} has shape {tuple(v.shape)}, the config says {tuple(target[k].shape)}")


def partial(case, s):
    """A model that lacks tensors: exactly the keys that need one of them are absent."""
    src, tgt = case["src"], case["tgt"]
    table, sd = correspondence(src, tgt), small(src)
    keys = sorted(sd)
    for drop in case["drops"]:
        kind, n, v = drop
        gone = {k for i, k in enumerate(keys) if (i >> n & 1) == v} if kind == "bit" else {keys[n]}
        left = {k: t for k, t in sd.items() if k not in gone}
        want = {k: x for k, x in table.items() if not gone & set(x[0])}
        s.trace()
        got = quiet_merge(sd_mecha.convert(sd_mecha.model(left, src), tgt))
        judge(s, "partial", got, want, left, f"{src} to {tgt} without {drop}")


def round_trip(case, s):
    """Flux converts both ways: the backbone survives unchanged."""
    a, b = "flux-flux_diffuser_only", "flux-flux"
    sd = small(a)
    s.trace()
    got = quiet_merge(sd_mecha.convert(sd_mecha.convert(sd_mecha.model(sd, a), b), a))
    if set(got) != set(sd) or any(not torch.equal(got[k], sd[k]) for k in sd):
        s.violation("round-trip", "flux: backbone to full and back is not the identity")
    s.states.add(h64("round trip"))


PARTS = {"complete": complete, "shapes": shapes, "partial": partial, "round_trip": round_trip}


def run(ck):
    ck.rule = "a state is one (way of conversion, target key); every target key's tensor is compared exactly with the source tensors it must come from"
    ck.bounds = {"conversions": len(CONVERSIONS), "keys": "all", "missing tensors": "by index bit" + (", and each single one" if ck.thorough else "")}
    pairs = [{"src": a, "tgt": b} for a, b in CONVERSIONS]
    ck.cases("complete", complete, [dict(p, how=[h]) for p in pairs for h in ("literal", "file", "inferred", "raw")], chunk=1)
    ck.cases("shapes", shapes, pairs, chunk=1)
    cases = []
    for p in pairs:
        n = len(model_configs.resolve(p["src"]).keys())
        drops = [("bit", i, v) for i in range(n.bit_length()) for v in (0, 1)]
        if ck.thorough:
            drops += [("one", i, 0) for i in range(n)]
        cases += [dict(p, drops=drops[i:i + 6]) for i in range(0, len(drops), 6)]
    ck.cases("partial", partial, cases, chunk=1)
    ck.cases("round_trip", round_trip, [{}])
    ck.assumptions = ["the correspondence of names between the formats is that of the diffusers, transformers, open clip and original checkpoints"]
