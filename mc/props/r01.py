"""R01: serialized recipes deserialize to the same recipe."""
import itertools
import pathlib
from ..env import *
from ..core import scratch
from ..recipes import abstract, value

P, Rt, Tn = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor
ANY = ("weight", "delta", "param")


@sd_mecha.merge_method
def r01_two(a: P(Tn, ANY), b: P(Tn, ANY), alpha: P(float) = 1.0, *, flag: P(bool) = False, name: P(str) = None) -> Rt(Tn, "weight"):
    return a


@sd_mecha.merge_method(identifier="r01 'odd\" \\ name=&0")
def r01_one(a: P(Tn, ANY)) -> Rt(Tn, "delta"):
    return a


@sd_mecha.merge_method
def r01_var(*m: P(Tn, ANY), k: P(Tn, ANY), j: P(Tn, ANY), s: P(str) = "x") -> Rt(Tn, "weight"):
    return m[0]


INF = float("inf")
STRINGS = ["", " ", "a", "a b", "  a  ", '"', '""', 'a"b', "\\", "\\\\", "a\\", "\\n", "\\\"", "\n", "a\nb", "a\n", "\r", "\r\n", "\t", "#", "# c", "a#b",
           "&0", "&", "=", "a=b", "a=&0", "=b", "null", "true", "1", "1.5", "é", "\u2028", "\x85", "\x0b", "\x00", "日本", "version 0.1.0", "model", "x" * 300,
           "alpha=1", "C:\\new\\rest", "a\\\nb", "\\r", "'", "a'b", "literal \"x\"", "\n\n", "nan", "True"]
NUMBERS = [0, 1, -1, 7, 2 ** 31, 2 ** 53 + 1, 2 ** 63, -2 ** 63, 10 ** 30, -10 ** 40, 0.0, -0.0, 0.5, 0.1, 1.0, -1.0, 1e22, 1e16, 123456789.123456789, 1e-7, 1e-320,
           5e-324, 1.7976931348623157e308, INF, -INF, float("nan"), 3.0, 1e100, 2.5e-5]
CONSTS = [None, True, False]
KEYS = ["a", "model.b.c", "a-b", "&0", "#", "null", "", "a.b/c", "é", "self", "1", "'k'", "a&b", "value", "model_config", "key:0", "(x)"]
BAD_KEYS = ["a b", "a=b", '"', "a\"b", "a\\b", "a\nb", " ", "a\t", "\r", "a\x85", 1, None, 1.5, ("a",)]
DICTS = [{}, {"a": 1}, {"a": 1.5, "b": 2}, {"a": True, "b": False}, {"a": "x"}, {"a": "x=y", "b": ""}, {"b": 1, "a": 2}, {"a": None}] + [{k: 1.5} for k in KEYS] + [{"p": 1.0, k: 2.0} for k in KEYS]
T1 = torch.ones(2)
UNSERIALIZABLE = [T1, {"a": T1}] + [{k: 1.0} for k in BAD_KEYS]
CONFIGS = [None, "sd1-ldm", "sdxl-supermerger_blocks", "infer", "sd1-ldm_kohya_lora", "structural"]
PATHS = ["m.safetensors", "/abs/dir/m.safetensors", "with space.safetensors", 'q"uote.safetensors', "back\\slash.safetensors", "a=b.safetensors", "null", "&0", "a\nb", "é.safetensors", "#x", ".", "~/x", "tab\t.safetensors"]


def cfg(c):
    if c == "structural":
        return model_configs.StructuralModelConfig({"a": model_configs.KeyMetadata([2], torch.float32)})
    return c


def check(recipe, s, what, refusable=False):
    s.trace()
    s.step()
    want = abstract(recipe)
    try:
        text = sd_mecha.serialize(recipe)
    except TypeError as e:
        if not refusable:
            s.violation("refused", f"{what}: serialization is refused: {e}")
        else:
            s.count("refused")
        return
    except Exception as e:
        return s.violation("serialize-error", f"{what}: serialize raises {e!r}")
    s.state(text)
    try:
        back = sd_mecha.deserialize(text)
    except Exception as e:
        return s.violation("deserialize-error", f"{what}: deserialize raises {e!r} on {text!r}")
    got = abstract(back) if isinstance(back, recipe_nodes.RecipeNode) else ("not a recipe", repr(back))
    if got != want:
        return s.violation("different", f"{what}: became {got} instead of {want} through {text!r}")
    try:
        again = sd_mecha.serialize(back)
    except Exception as e:
        return s.violation("reserialize-error", f"{what}: {e!r}")
    if again != text:
        s.violation("unstable-text", f"{what}: {again!r} instead of {text!r}")


def contexts(v, s, what, refusable=False):
    m, lit = sd_mecha.model, sd_mecha.literal
    isdict = isinstance(v, dict)
    for config in CONFIGS:
        for space in ("weight", "delta", "param", None):
            check(lit(v, cfg(config), space), s, f"root literal {what} {config} {space}", refusable)
            check(r01_two(lit(v, cfg(config), space), m("m.safetensors", None if config == "structural" else config)), s, f"wrapped literal {what} {config} {space}", refusable)
    # where value nodes can appear directly
    check(r01_one(v), s, f"argument {what}", refusable)
    check(r01_two(v, v, v), s, f"three arguments {what}", refusable)
    check(r01_two(m("m"), v, 0.25, name="z"), s, f"second argument {what}", refusable)
    check(r01_two(m("m"), m("n"), flag=v, name=v), s, f"keyword arguments {what}", refusable)
    check(r01_var(v, m("m"), v, k=v, j=v), s, f"variadic {what}", refusable)
    check(r01_one(r01_two(r01_one(v), v)), s, f"nested {what}", refusable)
    check(r01_two(lit({"a": lit(v), "b": r01_one(v)} if False else {"a": lit(v), "b": lit(v)}), 1.0), s, f"in a dict of nodes {what}", refusable)
    if not isdict:
        for k in ("a", "k.w"):
            check(lit({k: v, "z": v}), s, f"dict value {what}", refusable)
            check(r01_two({k: v, "z": v}, lit({k: v}, "sd1-ldm", "weight")), s, f"dict value argument {what}", refusable)


def values(case, s):
    pool = {"string": STRINGS, "number": NUMBERS, "const": CONSTS, "dict": DICTS, "bad": UNSERIALIZABLE}[case["kind"]]
    v = pool[case["i"]]
    contexts(v, s, repr(v)[:60], case["kind"] == "bad")
    s.sample({"value": repr(v)[:60], "contexts": "root, argument, keyword, variadic, dict value, nested"})


def pairs(case, s):
    """Two values side by side: quoting of one must not affect the other."""
    pool = STRINGS + NUMBERS[:6] + CONSTS
    a = pool[case["i"]]
    for b in pool:
        check(r01_two(a, b), s, f"pair {a!r} {b!r}")
        check(r01_var(a, k=b, j=a, s=b), s, f"kw pair {a!r} {b!r}")
        check(sd_mecha.literal({"a": a, "b": a}), s, "dict")


def models(case, s):
    for config in CONFIGS:
        for space in ("weight", "delta", "param"):
            a = sd_mecha.model(pathlib.Path(case["path"]), cfg(config), space)
            check(a, s, f"model {case['path']!r} {config} {space}")
            check(r01_two(a, a), s, f"shared model {case['path']!r}")
            check(r01_two(a, sd_mecha.model(pathlib.Path(case["path"]), cfg(config), "weight"), flag=True), s, "two models")
            check(sd_mecha.literal({"k": a, "l": a}), s, "dict of models")
            check(r01_one({"k": a, "l": r01_one(a) if space == "delta" else a}), s, "dict of nodes")


def leaves():
    m, lit = sd_mecha.model, sd_mecha.literal
    return [m("a.safetensors"), m("b.safetensors", "sd1-ldm", "delta"), lit(0.5), lit(True), lit({"k": 2}), lit({"k": m("c"), "l": m("d")})]


def level1(L):
    out = [r01_one(a) for a in L]
    out += [r01_two(a, b) for a in L for b in L]
    out += [r01_two(a, b, 2, flag=True) for a in L for b in L[:3]]
    out += [r01_var(a, b, k=c, j=a) for a in L[:4] for b in L[:3] for c in L[1:4]]
    out += [r01_var(k=a, j=b) for a in L[:3] for b in L[:3]]
    out += [lit_dict(a, b) for a in L for b in L if lit_dict(a, b) is not None]
    return out


def lit_dict(a, b):
    try:
        return sd_mecha.literal({"x": a, "y": b})
    except (ValueError, RuntimeError):
        return None


def ok(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (ValueError, TypeError, RuntimeError):
        return None


def programs(case, s):
    L = leaves()
    L1 = L + level1(L)
    for i, a in enumerate(L1):
        if i % case["J"] != case["j"]:
            continue
        check(a, s, f"program {i}")
        for n, b in enumerate(L1):
            r = ok(r01_two, a, b)
            if r is not None:
                check(r, s, f"program two({i},{n})")
            if case["deep"]:
                for r in (ok(r01_var, a, b, a, k=b, j=a), ok(r01_one, lit_dict(a, b)) if lit_dict(a, b) is not None else None,
                          ok(r01_two, r01_one(a), ok(r01_two, b, a), 3.5)):
                    if r is not None:
                        check(r, s, f"deep({i},{n})")
    s.sample({"programs": f"two(x, y) for x, y in the {len(L1)} recipes of depth <= 1"})


def sharing(case, s):
    """Shared sub-recipes keep their identity in the text: its size is that of the graph."""
    n = case["depth"]
    x = sd_mecha.model("a.safetensors")
    for _ in range(n):
        x = r01_two(x, x)
    check(x, s, f"shared chain {n}")
    text = sd_mecha.serialize(x)
    s.cmax("lines", len(text.split("\n")))
    back = sd_mecha.deserialize(text)
    k = 0
    while isinstance(back, recipe_nodes.MergeRecipeNode):
        if back.args[0] is not back.args[1]:
            return s.violation("unshared", "a shared node is duplicated by deserialization")
        back, k = back.args[0], k + 1


def files(case, s):
    """serialize(output=...) and deserialize_path give the same recipe."""
    for i, v in enumerate(STRINGS):
        if i % 4 != case["j"]:
            continue
        for as_str in (False, True):
            path = pathlib.Path(scratch()) / "r01.mecha"
            recipe = r01_two(sd_mecha.model("m.safetensors"), 1.5, name=v)
            s.trace()
            text = sd_mecha.serialize(recipe, output=str(path) if as_str else path)
            back = sd_mecha.deserialize_path(path)
            s.state(text)
            if abstract(back) != abstract(recipe):
                s.violation("file-different", f"through a file, {v!r} became {abstract(back)}")


def long(case, s):
    """Recipes of many nodes: references of several digits, to the near and to the far."""
    n, kind = case["n"], case["kind"]
    m = lambda i: sd_mecha.model(f"m{i}.safetensors", [None, "sd1-ldm"][i % 2] if kind == "configs" else None)
    if kind == "variadic":
        recipe = r01_var(*(m(i) for i in range(n)), k=m(n), j=m(0))
    elif kind == "chain":
        recipe = m(0)
        for i in range(1, n):
            recipe = r01_two(recipe, m(i), float(i)) if i % 3 else r01_one(recipe)
    elif kind == "far":      # every step refers to the first, the last and one in the middle
        nodes = [m(0), m(1)]
        for i in range(n):
            nodes.append(r01_var(nodes[0], nodes[-1], k=nodes[len(nodes) // 2], j=nodes[1], s=f"s{i}"))
        recipe = r01_var(*nodes[::-1], k=nodes[1], j=nodes[-2])
        if n > 12:
            recipe = r01_var(*[x for x in nodes[:12]], k=nodes[1], j=nodes[-2 if n < 16 else 14])
    elif kind == "dict":
        recipe = r01_two(sd_mecha.literal({f"k{i}": float(i) for i in range(n)}), sd_mecha.literal({f"k{i}": m(i) for i in range(n)}), 0.5)
    elif kind == "dicts":
        recipe = r01_var(*({f"k{j}": float(i) for j in range(i % 5 + 1)} for i in range(n)), k={f"a{i}": i for i in range(n)}, j=1)
    elif kind == "repeats":  # equal but distinct leaves, and the same leaf again and again
        a = m(0)
        recipe = r01_var(*[x for i in range(n) for x in (a, m(0), m(i % 7), 1.5)], k=a, j=m(0))
    else:
        recipe = r01_var(*(r01_two(m(i), m(i + 1)) for i in range(n)), k=1, j="s")
    check(recipe, s, f"{kind} of {n}")


PARTS = {"long": long, "values": values, "pairs": pairs, "models": models, "programs": programs, "sharing": sharing, "files": files}


def run(ck):
    ck.rule = "each recipe of the grammar is serialized, deserialized and compared structurally with the original; states are distinct texts"
    ck.bounds = {"strings": len(STRINGS), "numbers": len(NUMBERS), "dicts": len(DICTS), "unserializable": len(UNSERIALIZABLE), "program depth": 2}
    ck.assumptions = ["merge methods and model configs of the recipe are registered", "caches attached to nodes are not part of a recipe's text"]
    kinds = {"string": STRINGS, "number": NUMBERS, "const": CONSTS, "dict": DICTS, "bad": UNSERIALIZABLE}
    ck.cases("values", values, [{"kind": k, "i": i} for k, l in kinds.items() for i in range(len(l))], chunk=4)
    ck.cases("pairs", pairs, [{"i": i} for i in range(len(STRINGS) + 6 + 3)], chunk=2)
    ck.cases("models", models, [{"path": p} for p in PATHS], chunk=1)
    J = 32
    ck.cases("programs", programs, [{"j": j, "J": J, "deep": ck.thorough} for j in range(J)], chunk=1)
    ck.cases("sharing", sharing, [{"depth": d} for d in range(1, 12)], chunk=2)
    ck.cases("files", files, [{"j": j} for j in range(4)], chunk=1)
    sizes = {"variadic": (9, 10, 11, 99, 100, 101, 300, 1100), "chain": (8, 9, 10, 11, 12, 40, 101), "far": (3, 7, 8, 9, 10, 11), "dict": (9, 10, 11, 101, 300, 1100), "dicts": (9, 11, 101, 260),
             "repeats": (3, 9, 11, 40, 101), "configs": (9, 10, 11, 34, 101, 350)}
    ck.cases("long", long, [{"kind": k, "n": n} for k, ns in sizes.items() for n in ns], chunk=2, limit=300)
