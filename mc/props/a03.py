"""A03: model configs are inferred and enforced across a recipe."""
import itertools
from ..env import *
from ..core import h64

P, Rt, Tn, SD = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor, sd_mecha.StateDict
A, B, C = "sd1-ldm", "sdxl-sgm", "flux-flux"
CONF = (None, A, B, C)


def declare(decls, var, ret):
    ann = {None: "P(SD[Tn])", A: "P(SD[Tn], model_config=A)", B: "P(Tn, model_config=B)", "obj": "P(Tn, model_config=AO)"}
    parts = []
    for i, d in enumerate(decls):
        last = i == len(decls) - 1
        if last and var == "var":
            parts.append("*v: " + ann[d])
        elif last and var == "kw":
            parts += ["*", f"kw: {ann[d]}"]
        else:
            parts.append(f"p{i}: {ann[d]}")
    r = {None: "Rt(Tn)", A: "Rt(Tn, model_config=A)", B: "Rt(Tn, model_config=B)", "obj": "Rt(Tn, model_config=AO)"}[ret]
    src = f"def f({', '.join(parts)}) -> {r}:\n    return 0"
    ns = {"P": P, "Rt": Rt, "Tn": Tn, "SD": SD, "A": A, "B": B, "AO": model_configs.resolve(A)}
    exec(src, ns)
    return ns["f"], src.splitlines()[0]


UNKNOWN = object()


def reference(decls, confs, ret):
    """The recipe's config; Reject -> 'refused'; UNKNOWN where the declaration leaves it open."""
    norm = lambda d: A if d == "obj" else d
    u = norm(ret)
    for d, c in zip(map(norm, decls), confs):
        if c is None:
            continue
        if d is not None:
            if c != d:
                return "refused"
        elif u is None:
            u = c
        elif u != c:
            return "refused"
    if u is None and any(d is not None for d in decls):
        return UNKNOWN  # only operands with a declared config: nothing says what is returned
    return u


def operand(conf, kind):
    if kind == "literal":
        return sd_mecha.literal({"k": 1.0}, conf, "weight")
    if kind == "dict":
        return sd_mecha.literal({"k": sd_mecha.model("x", conf), "l": sd_mecha.model("y", conf)})
    if kind == "object":
        return sd_mecha.model("x", None if conf is None else model_configs.resolve(conf))
    if kind == "merge":
        return sd_mecha.n_average(sd_mecha.model("x", conf), sd_mecha.model("y"))
    return sd_mecha.model("x", conf)


KINDS = ["model", "literal", "object", "dict", "merge"]


def signatures(case, s):
    decls, var = case["decls"], case["var"]
    for ret in (None, A, B, "obj"):
        fn, src = declare(decls, var, ret)
        s.trace()
        try:
            method = sd_mecha.merge_method(fn, identifier="a03", register=False)
        except TypeError as e:
            if not (ret is None and all(d is not None for d in decls)):
                s.violation("declaration", f"{src}: refused: {e}")
            s.count("declarations refused")
            continue
        n = len(decls)
        for c in ([n] if var != "var" else [n - 1, n, n + 1]):
            eff = (decls + [decls[-1]])[:c]
            for k, confs in enumerate(itertools.product(CONF, repeat=c)):
                want = reference(eff, confs, ret)
                ops = [operand(x, KINDS[(k + i) % len(KINDS)]) for i, x in enumerate(confs)]
                s.trace()
                s.step()
                s.states.add(h64((tuple(decls), var, ret, confs)))
                try:
                    node = method(*ops[:-1], kw=ops[-1]) if var == "kw" else method(*ops)
                    got = getattr(node.model_config, "identifier", None)
                except ValueError:
                    got = "refused"
                except StopIteration:
                    continue  # no operand at all: no merge space either
                except RuntimeError as e:
                    if c == 0:
                        continue
                    raise
                if want is UNKNOWN:
                    if got == "refused":
                        s.violation("refused", f"{src} on operands with configs {confs}: refused")
                    continue
                if got != want:
                    # the config is checked at the latest when it is asked for
                    s.violation("config", f"{src} on operands with configs {confs}: {got}, expected {want}")
    s.sample({"declarations": decls, "last": var})


def conversions(case, s):
    """Each registered conversion takes exactly its source config and gives exactly its target config."""
    every = [c.identifier for c in model_configs.get_all()]
    pairs = {}
    for mm in merge_methods.get_all_converters():
        src, ret = mm.get_input_configs().args[0].identifier, None
        for conf in every + [None]:
            s.trace()
            s.step()
            s.states.add(h64((mm.identifier, conf)))
            lora = "_lora" in src
            try:
                node = mm(sd_mecha.model("x", conf))
                got = getattr(node.model_config, "identifier", None)
            except (ValueError, TypeError):
                got = "refused"
            if conf not in (src, None) and got != "refused":
                s.violation("conversion-input", f"{mm.identifier} accepts a model of config {conf}")
            if conf in (src, None):
                if got in (None, "refused"):
                    s.violation("conversion-output", f"{mm.identifier} on {conf}: {got}")
                elif ret is not None and got != ret:
                    s.violation("conversion-output", f"{mm.identifier} gives {got} or {ret}")
                ret = got
        pairs.setdefault((src, ret), []).append(mm.identifier)
    expected = {("sdxl-diffusers_unet_only", "sdxl-sgm"), ("sdxl-kohya", "sdxl-sgm"), ("sd1-kohya", "sd1-ldm"), ("flux-flux_diffuser_only", "flux-flux"),
                ("sd1-supermerger_blocks", "sd1-ldm"), ("sdxl-supermerger_blocks", "sdxl-sgm")}
    for e in model_configs.get_all_base():
        expected |= {(f"{e.identifier}_lycoris_lora", e.identifier), (f"{e.identifier}_kohya_lora", e.identifier)}
    missing = {p for p in expected if p not in pairs and not p[0].startswith("hf_")}
    if missing:
        s.violation("conversion-missing", f"no conversion between {sorted(missing)}")
    for (src, ret), ids in pairs.items():
        if "_lora" in src and src.rsplit("_", 2)[0] != ret:
            s.violation("conversion-output", f"{ids}: {src} converts to {ret}")


def nested(case, s):
    """Conflicts are found wherever they are in the recipe, at construction or when merging."""
    ma, mb, mn = sd_mecha.model("a", A), sd_mecha.model("b", B), sd_mecha.model("n")
    avg, ws = sd_mecha.n_average, sd_mecha.weighted_sum
    recipes = [
        ("flat", lambda: avg(ma, mb), True), ("nested", lambda: avg(avg(ma, mn), mb), True), ("deep", lambda: avg(avg(avg(mn, ma)), avg(mn, avg(mb))), True),
        ("keyword", lambda: ws(ma, b=mb), True), ("dict", lambda: sd_mecha.literal({"x": ma, "y": mb}), True), ("dict2", lambda: avg({"x": ma, "y": mb}), True),
        ("operator", lambda: ma - mb, True), ("fallback", lambda: ma | mb, True), ("ok", lambda: avg(ma, avg(mn, ma)), False), ("cast", lambda: avg(ma.to(dtype="float32"), mb.to(dtype="float32")), True),
        ("param", lambda: ws(ma, ma, sd_mecha.literal({"k": 1.0}, B)), True), ("param ok", lambda: ws(ma, ma, sd_mecha.literal({"k": 1.0}, A)), False),
        ("dict conf", lambda: sd_mecha.literal({"x": ma}, B), True), ("dict conf ok", lambda: sd_mecha.literal({"x": ma}, A), False),
    ]
    for name, build, bad in recipes:
        s.trace()
        s.states.add(h64(name))
        try:
            r = build()
            got = getattr(r.model_config, "identifier", None)
        except (ValueError, RuntimeError):
            got = "refused"
        if (got == "refused") != bad or not bad and got != A:
            s.violation("nested", f"{name}: {got}")
    for bad in ("nope", "structural"):
        for f in (lambda: P(Tn, model_config=bad), lambda: Rt(Tn, model_config=bad), lambda: sd_mecha.model("x", bad), lambda: sd_mecha.literal({}, bad)):
            s.trace()
            try:
                f()
                s.violation("unknown", f"the config {bad!r} is accepted")
            except ValueError:
                pass


PARTS = {"signatures": signatures, "conversions": conversions, "nested": nested}


def run(ck):
    ck.rule = "each (signature, operand configs) pair is built with the real library and compared with a declarative reference"
    depth = 4 if ck.thorough else 3
    ck.bounds = {"parameters": depth, "declared configs": 3, "operand configs": 4}
    sigs = [{"decls": list(d), "var": var} for n in range(1, depth + 1) for d in itertools.product((None, A, B, "obj"), repeat=n) for var in ("no", "var", "kw")
            if n < 4 or "obj" not in d]
    ck.cases("signatures", signatures, sigs, chunk=4)
    ck.cases("conversions", conversions, [{}])
    ck.cases("nested", nested, [{}])
    ck.assumptions = ["when only operands with a declared config are given and the method declares no output config, the config of the recipe is left open"]
