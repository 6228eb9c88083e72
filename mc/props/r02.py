"""R02: merge to a file, take the recipe text out of the file, merge that text: the same model."""
import itertools
import os
import pathlib
import shutil
from ..core import scratch, h64
from ..env import *
from ..probes import P, Rt, Tn, SD

A, B, LAY = "zzr-a", "zzr-b", "zzr-lay"
READY = []
KA, KB = ("k0", "k1", "k2"), ("x0", "x1", "x2")


def setup():
    if READY:
        return
    READY.append(1)
    f32 = {"shape": [2], "dtype": "float32"}
    model_configs.register(model_configs.ModelConfigImpl(A, {"c": {"k0": f32, "k1": f32 | {"aliases": ["k1_alias"]}, "k2": f32 | {"optional": True}}, "ema": {"e": f32 | {"optional": True}}}))
    model_configs.register(model_configs.ModelConfigImpl(B, {"c": {k: f32 for k in KB}}))

    @sd_mecha.merge_method(identifier="mc_r02_conv", is_conversion=True)
    def conv(a: P(SD[Tn], model_config=B), **kwargs) -> Rt(Tn, model_config=A):
        return a[{"k0": "x0", "k1": "x1", "k2": "x2"}.get(kwargs["key"], "none")] * 2

    @sd_mecha.merge_method(identifier="mc_r02 'odd\" \\ name=&0")
    def odd(a: P(Tn), name: P(str) = "n", *, flag: P(bool) = False, pos: P(int) = 3, **kwargs) -> Rt(Tn):
        return a + len(name) + (0.5 if flag else 0.0) + pos

    @sd_mecha.merge_method(identifier="mc_r02_all")
    def all_keys(a: P(SD[Tn]), *rest: P(Tn), w: P(Tn) = 1.0, **kwargs) -> Rt(Tn):
        return sum((a[k] for k in a if k in KA), torch.zeros(())) * w + sum(rest)


def values(i, keys):
    return {k: torch.tensor([(i * 7 + j * 3 + n * 5) % 16 / 4 + i for n in range(2)]) for j, k in enumerate(keys)}


FILES = {
    "a.safetensors": values(1, (*KA, "e", "extra a")), "dir b/b.safetensors": values(2, ("k0", "k1_alias", "k2", "other")), 'odd "q\\ =&0#.safetensors': values(3, ("k0", "k1")),
    "x.safetensors": values(4, KB), "s.safetensors": values(5, ("p", "q", "r")), "t.safetensors": values(6, ("p", "q")),
}


class World:
    def __init__(self):
        setup()
        self.root = pathlib.Path(scratch()).resolve() / "r02"
        shutil.rmtree(self.root, ignore_errors=True)
        for i, d in enumerate(("d0", "d1")):
            for name, t in FILES.items():
                (self.root / d / name).parent.mkdir(parents=True, exist_ok=True)
                if i or name != "a.safetensors":  # a is only in the second directory
                    write_safetensors(self.root / d / name, t)
        self.dirs = [self.root / "d0", self.root / "d1"]
        self.opts = dict(threads=0, total_buffer_size=256, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar, model_dirs=self.dirs)
        self.n = 0

    def leaves(self):
        f = lambda name: self.dirs[1] / name
        return {
            "a": lambda: sd_mecha.model("a.safetensors", A),
            "a?": lambda: sd_mecha.model(f("a.safetensors")),
            "b": lambda: sd_mecha.model("dir b/b.safetensors", model_configs.INFER),
            "odd": lambda: sd_mecha.model('odd "q\\ =&0#.safetensors', A),
            "x>a": lambda: sd_mecha.convert(sd_mecha.model("x.safetensors"), A, self.dirs),
            "x:>a": lambda: sd_mecha.convert(sd_mecha.model(f("x.safetensors"), B), sd_mecha.model("a.safetensors"), self.dirs),
        }

    def loose(self):
        return {"s": lambda: sd_mecha.model("s.safetensors"), "t": lambda: sd_mecha.model("t.safetensors")}

    def makes(self):
        odd, all_keys = merge_methods.resolve("mc_r02 'odd\" \\ name=&0"), merge_methods.resolve("mc_r02_all")
        return {
            "x": lambda x, y: x,
            "sum": lambda x, y: sd_mecha.weighted_sum(x, y, alpha=0.25),
            "sum per key": lambda x, y: sd_mecha.weighted_sum(x, y, alpha=sd_mecha.literal({"k0": 0.5, "k1": 0.75}, A) | 0.125),
            "avg": lambda x, y: sd_mecha.n_average(x, y, x),
            "diff": lambda x, y: sd_mecha.add_difference(x, x - y, alpha=0.5),
            "diff3": lambda x, y: sd_mecha.add_difference(x, y, x, alpha=1.5, clamp_to_ab=True),
            "or": lambda x, y: x | y,
            "odd": lambda x, y: odd(x, 'a "b\\ =&0\n', flag=True, pos=-2) + (y - x),
            "defaults": lambda x, y: odd(y),
            "all": lambda x, y: all_keys(x, y, y, w=0.5),
            "pick": lambda x, y: sd_mecha.omit_component(x, "ema") | y,
            "cast": lambda x, y: sd_mecha.cast(x, dtype="bfloat16"),
            "rotate": lambda x, y: sd_mecha.rotate(x, y, alignment=0.5, alpha=0.25, cache={}),
            "dropout": lambda x, y: sd_mecha.dropout(x, y, probability=0.5, seed=5),
            "model dict": lambda x, y: sd_mecha.weighted_sum(x, y, sd_mecha.literal({"k0": 1.0, "k1": 0.0, "k2": 0.5, "e": 1.0}, A, "param")),
        }


def same_up_to_configs(a, b):
    """The two recipes are the same graph; a config that was not given may have been written down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, recipe_nodes.MergeRecipeNode):
        return (a.merge_method.identifier == b.merge_method.identifier and len(a.args) == len(b.args) and set(a.kwargs) == set(b.kwargs)
                and all(same_up_to_configs(x, y) for x, y in zip(a.args, b.args)) and all(same_up_to_configs(a.kwargs[k], b.kwargs[k]) for k in a.kwargs))
    ident = lambda c: getattr(c, "identifier", c)
    ca, cb = ident(a.model_config), ident(b.model_config)
    if ca not in (None, "infer", "structural") and ca != cb or a.merge_space != b.merge_space:
        return False
    if isinstance(a, recipe_nodes.ModelRecipeNode):
        return pathlib.Path(a.path) == pathlib.Path(b.path)
    if isinstance(a.value, dict):
        return list(a.value) == list(b.value) and all(same_up_to_configs(x, y) if isinstance(x, recipe_nodes.RecipeNode) else repr(x) == repr(y) for x, y in zip(a.value.values(), b.value.values()))
    return repr(a.value) == repr(b.value)


def before(world, name, recipe):
    """One operation on the recipe before it is saved; whether it fails does not matter."""
    o = world.opts
    try:
        if name == "merge":
            sd_mecha.merge(recipe, **o | {"output_dtype": torch.float16, "omit_extra_keys": False})
        elif name == "file":
            sd_mecha.merge(recipe, **o | {"output": world.root / "before.safetensors", "threads": 2})
        elif name == "fallback":
            sd_mecha.merge(recipe, fallback_model=sd_mecha.model("a.safetensors", A), **o)
        elif name == "failing":
            sd_mecha.merge(recipe, **o | {"model_dirs": [world.root]})
        elif name == "interrupted":
            class Stop(NoBar):
                def update(self, *a):
                    raise KeyboardInterrupt
                __getattr__ = lambda self, n: (lambda *a, **k: None)
            sd_mecha.merge(recipe, **o | {"tqdm": Stop, "output": world.root / "before.safetensors"})
        elif name == "serialize":
            sd_mecha.serialize(recipe)
        elif name == "convert":
            sd_mecha.convert(recipe, A, world.dirs)
        elif name == "target":
            sd_mecha.convert(sd_mecha.model("x.safetensors"), recipe, world.dirs)
        elif name == "open":
            with sd_mecha.open_input_dicts(recipe, world.dirs):
                sd_mecha.serialize(recipe)
        elif name == "part":  # an operand is merged on its own
            sd_mecha.merge(recipe.args[0], **o)
    except (Exception, KeyboardInterrupt):
        pass


BEFORE = ("merge", "file", "fallback", "failing", "interrupted", "serialize", "convert", "target", "open", "part")


def save(world, recipe, opts):
    world.n += 1
    path = world.root / f"out{world.n % 2}.safetensors"
    path.unlink(missing_ok=True)
    sd_mecha.merge(recipe, **world.opts | opts | {"output": path})
    return parse_safetensors(path.read_bytes())


def roundtrip(s, world, recipe, opts, what, want=None):
    """Save, extract, deserialize, save again; optionally compare with the tensors of a recipe that was never used before."""
    s.trace()
    s.state(what)
    try:
        got, meta = save(world, recipe, opts)
    except Exception as e:
        if want is None:
            return s.count("not mergeable: " + type(e).__name__ + str(e)[:90]) or None
        return s.violation("history", f"{what}: cannot be saved: {e!r}")
    if set(meta) != {"mecha_recipe"}:
        return s.violation("no-recipe", f"{what}: the file holds the metadata {meta}")
    text = meta["mecha_recipe"]
    try:
        back = sd_mecha.deserialize(text)
    except Exception as e:
        return s.violation("unreadable", f"{what}: the stored text {text!r} is not accepted: {e!r}")
    if not same_up_to_configs(recipe, back):
        return s.violation("other-recipe", f"{what}: the stored text {text!r} is another recipe")
    try:
        again, meta2 = save(world, back, opts)
    except Exception as e:
        return s.violation("not-mergeable", f"{what}: the stored recipe {text!r} cannot be merged: {e!r}")
    s.evaluations += len(got)
    if again != got:
        return s.violation("other-model", f"{what}: the stored recipe {text!r} gives {diff(again, got)}")
    if meta2.get("mecha_recipe") != text:
        return s.violation("unstable", f"{what}: merging the stored recipe {text!r} stores {meta2}")
    if want is not None and got != want:
        return s.violation("history", f"{what}: {diff(got, want)} compared with a new recipe")
    return got


def diff(a, b):
    return f"keys {sorted(a)} instead of {sorted(b)}" if sorted(a) != sorted(b) else f"other values of {[k for k in a if a[k] != b[k]]}"


OPTIONS = [{}, {"omit_extra_keys": False}, {"omit_extra_keys": False, "omit_ema": True}, {"omit_ema": False}, {"threads": 2, "total_buffer_size": 2000}, {"output_dtype": None}, {"merge_dtype": None, "merge_device": None}, {"strict_weight_space": False}, {"fallback": 1}]


def graphs(case, s):
    """Every constructor over every pair of leaves, then another constructor on top, with every option set."""
    world = World()
    leaves, makes = (world.loose() if case["loose"] else world.leaves()), world.makes()
    inner, outer = case["inner"], case["outer"]
    for l0, l1 in itertools.product(leaves, repeat=2):
        for options in (OPTIONS if case["deep"] or outer is None else OPTIONS[:2]):
            opts = dict(options)
            if opts.pop("fallback", None):
                opts["fallback_model"] = sd_mecha.model("t.safetensors" if case["loose"] else "a.safetensors", None if case["loose"] else A)
            x, y = leaves[l0](), leaves[l1]()
            try:
                recipe = makes[inner](x, y)
                if outer is not None:
                    recipe = makes[outer](recipe, y) if case["left"] else makes[outer](y, recipe)
            except Exception:
                s.count("not a recipe")
                continue
            roundtrip(s, world, recipe, opts, f"{outer}({inner}({l0}, {l1}), {l1}) left={case['left']} with {options}")
    s.sample({k: case[k] for k in ("inner", "outer", "left")})


def histories(case, s):
    """The same recipe object after every sequence of operations."""
    world = World()
    leaves, makes = world.leaves(), world.makes()
    inner = case["inner"]
    for l0, l1 in (("a?", "b"), ("x>a", "a"), ("odd", "a?")):
        for options in OPTIONS[:2]:
            fresh = roundtrip(s, world, makes[inner](leaves[l0](), leaves[l1]()), options, f"{inner}({l0}, {l1}) with {options}")
            if fresh is None:
                continue
            for n in range(1, case["depth"] + 1):
                for seq in itertools.product(BEFORE, repeat=n):
                    recipe = makes[inner](leaves[l0](), leaves[l1]())
                    for op in seq:
                        before(world, op, recipe)
                    roundtrip(s, world, recipe, options, f"{inner}({l0}, {l1}) with {options} after {seq}", want=fresh)


PARTS = {"graphs": graphs, "histories": histories}


def run(ck):
    T = ck.thorough
    setup()
    names = list(World.makes(World.__new__(World)))
    ck.rule = "a case is one recipe graph saved with one set of options after one history; the stored text is parsed, compared with the recipe and merged again, and both files are compared byte by byte"
    ck.assumptions = ["a config that the recipe does not give may be written down as inferred", "the files of the recipe do not change between the two merges"]
    ck.bounds = {"constructors": len(names), "leaves": 8, "depth of the graph": 2, "options": len(OPTIONS), "operations before saving": 2 if T else 1}
    cases = []
    for inner in names:
        for loose in (False, True):
            cases.append({"inner": inner, "outer": None, "left": True, "deep": T, "loose": loose})
            for outer in names[1:] if T else ("odd", "or"):
                if inner != "x" and (T or not loose):
                    cases += [{"inner": inner, "outer": outer, "left": left, "deep": T, "loose": loose} for left in ((True, False) if T else (True,))]
    ck.cases("graphs", graphs, cases, chunk=1, limit=900)
    ck.cases("histories", histories, [{"inner": i, "depth": 2 if T else 1} for i in names], chunk=1, limit=900)
