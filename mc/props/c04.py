"""C04: a model's config is inferred correctly from its keys."""
import itertools
from ..env import *
from ..core import h64, scratch, forked, Shard

MC = model_configs


def tiny(keys, n=0):
    return {k: torch.full((1,), float(i + n), dtype=torch.float64) for i, k in enumerate(keys)}


def spell(ident, mode):
    """The keys of a complete model, some under an alias. mode: 'plain', ('alias', which), ('bit', n, which)."""
    out = []
    for i, (k, m) in enumerate(MC.resolve(ident).keys().items()):
        al = list(m.aliases)
        if mode == "plain" or not al:
            out.append(k)
        elif mode[0] == "alias":
            out.append(al[mode[1] % len(al)])
        else:
            out.append(al[-1] if (i >> mode[1] & 1) == mode[2] else k)
    return out


def perturb(ident, keys, what):
    meta = MC.resolve(ident).keys()
    kind = what[0]
    if kind == "none":
        return keys
    if kind == "extra":
        return keys + [f"unrelated.{i}" for i in range(max(1, len(keys) * what[1] // 100))]
    if kind == "no optional":
        return [k for k in keys if k not in meta or not meta[k].optional]
    if kind == "one lacks":
        return [k for i, k in enumerate(keys) if i != what[1] % len(keys)]
    if kind == "reverse":
        return keys[::-1]
    raise ValueError(kind)


def inferred(node):
    with sd_mecha.open_input_dicts(node) as n:
        return n.model_config


def complete(case, s):
    ident = case["id"]
    path = pathlib.Path(scratch()) / "m.safetensors"
    for mode in case["modes"]:
        base = spell(ident, mode)
        for what in case["what"]:
            keys = perturb(ident, base, what)
            if what[0] == "no optional" and len(keys) == 0:
                continue
            sd = tiny(keys)
            s.states.add(h64((ident, repr(mode), repr(what))))
            for how in case["how"]:
                if how == "file" or how == "path infer":
                    write_safetensors(path, sd)
                node = {"memory": lambda: sd_mecha.model(sd), "file": lambda: sd_mecha.model(path), "infer": lambda: sd_mecha.model(sd, "infer"),
                        "path infer": lambda: sd_mecha.model(path, "infer"), "delta": lambda: sd_mecha.model(sd, None, "delta"),
                        "literal": lambda: sd_mecha.literal(dict.fromkeys(sd, 1.0))}[how]()
                s.trace()
                s.step()
                got = inferred(node).identifier
                if got != ident:
                    s.violation("complete", f"a model of {ident} ({mode}, {what}) given as {how} is recognised as {got}")
    s.sample({"config": ident, "modes": case["modes"], "perturbations": case["what"]})


def explicit(case, s):
    """A given config is respected, whatever the keys look like."""
    ident = case["id"]
    path = pathlib.Path(scratch()) / "e.safetensors"
    for other in case["others"]:
        sd = tiny(list(MC.resolve(other).keys())[:40])
        write_safetensors(path, sd)
        for how, conf in itertools.product(("memory", "file", "literal"), ("name", "object")):
            c = ident if conf == "name" else MC.resolve(ident)
            node = {"memory": lambda: sd_mecha.model(sd, c), "file": lambda: sd_mecha.model(path, c), "literal": lambda: sd_mecha.literal(dict.fromkeys(sd, 2.0), c)}[how]()
            s.trace()
            s.step()
            s.states.add(h64((ident, other)))
            got = inferred(node).identifier
            if got != ident:
                s.violation("explicit", f"keys of {other} explicitly given as {ident} ({how}, {conf}) are taken for {got}")


def declared(case, s):
    """A method's declared config decides between configs that a few shared keys fit equally."""
    a, b = case["pair"]
    shared = [k for k in MC.resolve(a).keys() if k in MC.resolve(b).keys()][:case["n"]]
    P, Rt, SD, Tn = sd_mecha.Parameter, sd_mecha.Return, sd_mecha.StateDict, torch.Tensor
    for c in (a, b):
        def f(m: P(SD[Tn], model_config=c), **kwargs) -> Rt(Tn, model_config=c):
            return m[kwargs["key"]]
        mm = sd_mecha.merge_method(f, identifier="c04", register=False)
        sd = tiny(shared)
        leaf = sd_mecha.model(sd)
        s.trace()
        s.step()
        s.states.add(h64((a, b, c)))
        seen = []
        with sd_mecha.open_input_dicts(mm(leaf)):
            seen.append(leaf.model_config.identifier)
        if seen != [c]:
            s.violation("declared", f"keys common to {a} and {b} given to a method for {c} are taken for {seen}")
        out = sd_mecha.merge(mm(leaf), merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=4096, tqdm=NoBar)
        if prints(out) != prints(sd):
            s.violation("declared", f"merging keys common to {a} and {b} as {c}: {len(out)} keys of {len(sd)}")


def structural(case, s):
    """Models that match nothing keep exactly their own keys."""
    path = pathlib.Path(scratch()) / "s.safetensors"
    keys = case["keys"]
    sd = {k: torch.full(tuple(sh), float(i), dtype=torch.float64) for i, (k, sh) in enumerate(keys)}
    write_safetensors(path, sd)
    for how in ("memory", "file", "literal"):
        make = {"memory": lambda: sd_mecha.model(sd), "file": lambda: sd_mecha.model(path), "literal": lambda: sd_mecha.literal(sd)}[how]
        s.states.add(h64(repr(keys)))
        s.trace()
        s.step()
        conf = None
        node = make()
        with sd_mecha.open_input_dicts(node) as n:
            conf = n.model_config
            if conf.identifier != "structural" or list(conf.keys()) != list(sd) or any(tuple(conf.keys()[k].shape) != sd[k].shape or conf.keys()[k].dtype != sd[k].dtype for k in sd):
                s.violation("structural", f"{keys} as {how}: {conf.identifier} with keys {list(conf.keys())}")
        for recipe, want in ((make(), sd), (sd_mecha.n_average(make(), make()), sd), (make().to(dtype="float32"), sd)):
            s.trace()
            out = sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=4096, tqdm=NoBar,
                                 strict_weight_space=False, omit_extra_keys=case["omit"], check_mandatory_keys=case["omit"])
            if prints(out) != prints(want):
                s.violation("structural-merge", f"{keys} as {how}: {sorted(out)}")
        if how != "literal":
            bad = sd_mecha.model(sd if how == "memory" else path, "infer")
            s.trace()
            try:
                inferred(bad)
                s.violation("infer", f"{keys}: a config that must be inferred is accepted although nothing matches")
            except RuntimeError:
                pass


def own(case, s):
    """Configs registered by the user, whose keys have several aliases: every way to spell every key."""
    s.merge(forked(_own, dict(case, _case=s.case)))


def _own(case):
    s = Shard()
    s.case = case["_case"]
    number, n, spread, other = case["number"], case["n"], case["spread"], case["other"]
    tag = f"c04u{number}"
    path = pathlib.Path(scratch()) / "o.safetensors"
    names = [[f"{tag}.{'kpqr'[a]}{i}" for a in range(1 + spread[i % len(spread)])] for i in range(n)]
    config = MC.ModelConfigImpl(f"{tag}-own", {"c": MC.ModelComponent({k[0]: MC.KeyMetadata([1], "float64", aliases=k[1:], optional=bool(i == n - 1 and case["optional"])) for i, k in enumerate(names)})})
    second = MC.ModelConfigImpl(f"{tag}-second", {"c": MC.ModelComponent({(k[-1] if i % 2 else k[0]) if i < other else f"{tag}.z{i}": MC.KeyMetadata([1], "float64") for i, k in enumerate(names)})})
    for c in (config, second):
        MC.register(c)
    for keys in itertools.product(*names):
        for order in (1, -1):
            sd = tiny(keys[::order])
            if order == 1:
                write_safetensors(path, sd)
            for how, make in {"memory": lambda: sd_mecha.model(sd), "file": lambda: sd_mecha.model(path), "infer": lambda: sd_mecha.model(sd, "infer")}.items():
                if order == -1 and how != "memory" or how == "infer" and not case["optional"]:
                    continue
                s.trace()
                s.step()
                s.states.add(h64((n, tuple(spread), other, tuple(k.split(".")[1] for k in keys))))
                fits = all(k in second.keys() for k in keys)
                got = inferred(make()).identifier
                if got != config.identifier and not (fits and got == second.identifier):
                    s.violation("own", f"a model of {list(keys)} ({how}) is recognised as {got}, not as the config with these keys")
                if got == config.identifier and how == "memory" and order == 1:
                    out = sd_mecha.merge(make(), merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=4096, tqdm=NoBar)
                    if {k: v.item() for k, v in out.items()} != {m[0]: sd[k].item() for m, k in zip(names, keys)}:
                        s.violation("own-merge", f"a model of {list(keys)} merges to {out}")
    s.case = None
    return s


def overlapping(case, s):
    """Configs that share keys: a partial model is that of the config most of its keys belong to; of none if that is not clear."""
    s.merge(forked(_overlapping, dict(case, _case=s.case)))


def affinities(keys, configs):
    """How many of the keys each config knows, of those that know at least a tenth of them."""
    n = {i: len(set(keys) & set(c)) for i, c in enumerate(configs)}
    return {i: v for i, v in n.items() if v >= len(keys) * 0.1}


def _overlapping(case):
    s = Shard()
    s.case = case["_case"]
    path = pathlib.Path(scratch()) / "v.safetensors"
    for number, configs in enumerate(case["configs"]):
        tag = f"c04v{case['number']}x{number}"
        configs = [[f"{tag}.{k}" for k in c] for c in configs]
        for i in range(len(configs)):
            MC.register(MC.ModelConfigImpl(f"{tag}-{'bac'[i]}", {"c": {k: {"shape": [1], "dtype": "float64"} for k in configs[i]}}))
        every = sorted({k for c in configs for k in c})
        for bits in range(1, 2 ** len(every)):
            for unknown in (0, 1, 12):
                keys = [k for i, k in enumerate(every) if bits >> i & 1] + [f"{tag}.unknown{i}" for i in range(unknown)]
                aff = affinities(keys, configs)
                best = [i for i in aff if aff[i] == max(aff.values())]
                if len(best) > 1 and not unknown:
                    continue  # every key belongs to several configs: not stated
                want = f"{tag}-{'bac'[best[0]]}" if len(best) == 1 else None
                sd = tiny(keys)
                s.states.add(h64((case["number"], number, bits, unknown)))
                for how in ("memory", "file", "infer"):
                    if how == "file":
                        if bits % 4 != 1:
                            continue
                        write_safetensors(path, sd)
                    s.trace()
                    s.step()
                    try:
                        got = inferred(sd_mecha.model(path if how == "file" else sd, "infer" if how == "infer" else None)).identifier
                    except RuntimeError as e:
                        if how == "infer":
                            if want is not None:
                                s.violation("overlapping-refused", f"configs {configs}, a model of {keys}: {e!r}")
                            continue
                        raise
                    if got != (want or "structural") or how == "infer" and want is None:
                        s.violation("overlapping", f"configs {configs}, a model of {keys} ({how}) is recognised as {got}, expected {want}")
    s.case = None
    return s


PARTS = {"complete": complete, "own": own, "overlapping": overlapping, "explicit": explicit, "declared": declared, "structural": structural}


def run(ck):
    ck.rule = "a state is one (config, spelling of the keys, perturbation) or one set of keys; the real inference is run on every one, for every kind of input"
    every = [c.identifier for c in MC.get_all()]
    for i in every:
        MC.resolve(i).keys()
    cases = []
    hows = ["memory", "file", "infer"] + (["path infer", "delta", "literal"] if ck.thorough else [])
    for i in every:
        aliased = any(m.aliases for m in MC.resolve(i).keys().values())
        n = len(MC.resolve(i).keys())
        what = [("none",), ("extra", 0), ("extra", 10), ("no optional",), ("reverse",), ("one lacks", 0), ("one lacks", n // 2), ("one lacks", n - 1)]
        if ck.thorough:
            what += [("one lacks", j) for j in range(1, n, max(1, n // 40))] + [("extra", 25)]
        modes = ["plain"]
        if aliased and "_lora" not in i:
            modes += [("alias", 0), ("alias", 1)] + [("bit", j, v) for j in range(n.bit_length()) for v in (0, 1)]
        if "_lora" in i:  # every tensor of a LoRA is optional
            what = [w for w in what if w[0] != "no optional"]
        for m in modes:
            cases.append({"id": i, "modes": [m], "what": what if m == "plain" or ck.thorough else what[:4], "how": hows if m == "plain" else hows[:2]})
    user = [{"n": n, "spread": list(sp), "other": o, "optional": opt} for n in ((1, 2, 3, 4) if ck.thorough else (1, 2, 3)) for sp in ((0,), (1,), (2,), (3,), (0, 1, 2, 3), (3, 0)) for o in sorted({0, n // 2}) for opt in (False, True)]
    ck.cases("own", own, [dict(u, number=k) for k, u in enumerate(user)], chunk=4)
    sub = ["abcd", "abc", "bcde", "cdef", "ab", "def", "abcdef", "adf"]
    sets = [list(map(list, c)) for r in (2, 3) for c in (itertools.permutations(sub, r) if ck.thorough else itertools.combinations(sub, r))]
    sets += [list(map(list, c[::-1])) for c in itertools.combinations(sub, 2)]
    sets = sets if ck.thorough else sets[::5]
    ck.cases("overlapping", overlapping, [{"configs": sets[i:i + 2], "number": i} for i in range(0, len(sets), 2)], chunk=1)
    ck.bounds = {"configs": len(every), "overlapping configs": f"{len(sets)} sets of 2 or 3 configs over 6 keys x all models of these keys x 0, 1, 12 unknown keys", "aliases": "all first, all last, by index bit", "extra keys": "1, 10%", "own configs": "1 to 3 (thorough: 4) keys with up to 3 aliases, every spelling", "missing": "all optional, first, middle, last"}
    ck.cases("complete", complete, cases, chunk=1)
    others = every if ck.thorough else every[::3]
    ck.cases("explicit", explicit, [{"id": i, "others": others} for i in every], chunk=1)
    pairs = [("sd1-supermerger_blocks", "sdxl-supermerger_blocks")]
    ck.cases("declared", declared, [{"pair": p, "n": n} for p in pairs for n in range(1, 18)])
    names = [["q"], ["q", "r"], ["a.b", "c"], ["zz.weight", "zz.bias", "yy"], ["Ünï", "x y"], ["q"] * 0]
    cases = []
    for ks in names:
        for shapes in itertools.product(([], [2], [2, 3]), repeat=len(ks)):
            for omit in (True, False):
                if ks:
                    cases.append({"keys": [list(p) for p in zip(ks, shapes)], "omit": omit})
    ck.cases("structural", structural, cases)
