"""D02: where a relative model path is read from, and where a relative output is written."""
import collections
import itertools
import os
import pathlib
from ..core import scratch
from ..env import *
from ..probes import P, Rt, Tn, SD

PLACES = ("d 0", "d1", "cwd")
TARGET = "zzd-t"
NAMES = ("m.safetensors", "v1.5 b.safetensors")


def setup():
    """Per place and file name a config of its own: the file that is read shows in the keys and in the inferred config."""
    try:
        model_configs.resolve(TARGET)
        return
    except ValueError:
        pass
    spec = lambda k: {"c": {k: {"shape": [1], "dtype": "float32"}}}
    model_configs.register(model_configs.ModelConfigImpl(TARGET, spec("t")))
    for i in range(4):
        name = f"zzd-{i}"
        model_configs.register(model_configs.ModelConfigImpl(name, spec(f"at{i}")))

        def conv(a: P(SD[Tn], model_config=name), **kwargs) -> Rt(Tn, model_config=TARGET):
            return next(iter(a.values())) + 100
        sd_mecha.merge_method(conv, identifier=f"mc_d02_{i}", is_conversion=True)


def tensors(i):
    return {f"at{i}": torch.tensor([float(i)])}


class Disk:
    def __init__(self):
        self.root = pathlib.Path(scratch()).resolve() / "d02"
        import shutil
        shutil.rmtree(self.root, ignore_errors=True)
        self.dirs = [self.root / p for p in PLACES] + [self.root / "elsewhere"]
        for d in self.dirs:
            (d / "sub").mkdir(parents=True)

    def put(self, i, rel):
        write_safetensors(self.dirs[i] / rel, tensors(i))

    def take(self, i, rel):
        (self.dirs[i] / rel).unlink(missing_ok=True)

    def files(self):
        return {str(p.relative_to(self.root)) for p in self.root.rglob("*") if p.is_file()}


# how a list of directories can be written down
SINGLE = {
    "str": str, "Path": lambda d: d, "relative str": lambda d: os.path.relpath(d), "relative Path": lambda d: pathlib.Path(os.path.relpath(d)),
    "str/": lambda d: str(d) + "/", "set": lambda d: {d},
}
MANY = {
    "list of str": lambda ds: [str(d) for d in ds], "list of Path": list, "tuple": lambda ds: tuple(str(d) for d in ds),
    "mixed": lambda ds: [str(d) if i % 2 else d for i, d in enumerate(ds)], "relative": lambda ds: [os.path.relpath(d) for d in ds],
    "generator": lambda ds: (str(d) for d in ds), "iterator": lambda ds: iter(list(ds)), "deque": lambda ds: collections.deque(ds),
    "dict": lambda ds: {str(d): None for d in ds}, "map": lambda ds: map(str, ds),
}
LISTS = [(), (0,), (1,), (0, 1), (1, 0), (9, 0), (0, 9), (9, 0, 1), (0, 0), (2, 0)]


def written(ds):
    out = dict(MANY)
    if len(ds) == 1:
        out.update({k: (lambda ds, f=f: f(ds[0])) for k, f in SINGLE.items()})
    return out


def reference(disk, dirs, rel):
    """Number of the place a path is read from, or None when it is nowhere."""
    p = pathlib.Path(rel)
    if p.is_absolute():
        found = p if p.exists() else None
    else:
        found = next((c for c in [d / p for d in dirs] + [disk.dirs[2] / p] if c.exists()), None)
    if found is None:
        return None
    found = found.resolve()
    return next(i for i, d in enumerate(disk.dirs) if found.is_relative_to(d))


OPTS = dict(threads=0, total_buffer_size=4096, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar, strict_weight_space=False)


def op_merge(recipe, arg):
    return sd_mecha.merge(recipe, model_dirs=arg(), **OPTS)


def op_open(recipe, arg):
    with sd_mecha.open_input_dicts(recipe, arg()):
        return {k: recipe.state_dict[k].clone() for k in recipe.state_dict.keys()} if isinstance(recipe, recipe_nodes.ModelRecipeNode) else None


def op_convert(recipe, arg):
    got = sd_mecha.convert(recipe, TARGET, arg())
    return {k: v - 100 for k, v in sd_mecha.merge(got, model_dirs=arg(), **OPTS).items()}


def op_defaults(recipe, arg):
    return sd_mecha.Defaults(model_dirs=arg(), **OPTS).merge(recipe)


def op_defaults_call(recipe, arg):
    return sd_mecha.Defaults(**OPTS).merge(recipe, model_dirs=arg())


def op_defaults_override(recipe, arg):
    return sd_mecha.Defaults(model_dirs="/nonexistent", **OPTS).merge(recipe, model_dirs=arg())


def op_defaults_convert(recipe, arg):
    d = sd_mecha.Defaults(model_dirs=arg(), **OPTS)
    got = d.convert(recipe, TARGET)
    return {k: v - 100 for k, v in d.merge(got).items()}


def op_defaults_convert_call(recipe, arg):
    d = sd_mecha.Defaults(**OPTS)
    got = d.convert(recipe, TARGET, arg())
    return {k: v - 100 for k, v in d.merge(got, model_dirs=arg()).items()}


def op_text(recipe, arg):
    return sd_mecha.merge(sd_mecha.deserialize(sd_mecha.serialize(recipe)), model_dirs=arg(), **OPTS)


OPS = {f.__name__[3:]: f for f in (op_merge, op_open, op_convert, op_defaults, op_defaults_call, op_defaults_override, op_defaults_convert, op_defaults_convert_call, op_text)}


def check(s, disk, dirs, rel, op, arg, what, node=None):
    want = reference(disk, dirs, str(rel))
    s.trace()
    try:
        got = OPS[op](node if node is not None else sd_mecha.model(rel), arg)
    except Exception as e:
        if want is not None:
            s.violation("not-found", f"{what}: {e!r}, expected the file in {(PLACES + ('elsewhere',))[want]!r}")
        return
    if want is None:
        s.violation("found", f"{what}: there is no such file, but the operation gives {got}")
        return
    values = [float(v) for v in got.values()]
    keys = set(got) if "convert" not in op else {f"at{want}"}
    if values != [float(want)] or keys != {f"at{want}"}:
        s.violation("wrong-file", f"{what}: got {got}, expected the file in {(PLACES + ('elsewhere',))[want]!r}")


def models(case, s):
    """Every placement of the file, list of directories, way to write it, kind of path and operation."""
    setup()
    disk = Disk()
    os.chdir(disk.dirs[2])
    rel, op = case["rel"], case["op"]
    if rel.startswith("ABS"):
        rel = str(disk.dirs[3] / rel[4:])
    for present in itertools.product((0, 1), repeat=4 if case["rel"].startswith("ABS") else 3):
        base = pathlib.Path(case["rel"][4:] if case["rel"].startswith("ABS") else rel)
        for i in range(4):
            disk.take(i, base)
            if i < len(present) and present[i]:
                disk.put(i, base)
        for ids in LISTS:
            dirs = [disk.dirs[i] if i < 9 else disk.root / "missing" for i in ids]
            for kind, make in written(dirs).items():
                if case["kinds"] and kind not in case["kinds"]:
                    continue
                for path in (rel, pathlib.Path(rel)):
                    s.state((op, case["rel"], present, ids, kind, type(path).__name__))
                    check(s, disk, dirs, path, op, lambda: make(dirs), f"{op} of {rel!r} in files {disk.files()} with model_dirs={kind} of {[d.name for d in dirs]}")
    os.chdir("/")
    s.sample({k: case[k] for k in ("rel", "op")})


def history(case, s):
    """The same node and the same defaults, used again after the files were moved."""
    setup()
    disk = Disk()
    os.chdir(disk.dirs[2])
    rel = NAMES[0]
    for ids in ((0, 1), (0,), ()):
        dirs = [disk.dirs[i] for i in ids]
        for kind, make in written(dirs).items():
            if kind not in ("list of str", "generator", "iterator", "str", "tuple"):
                continue
            if kind in ("tuple", "iterator") and not case["deep"]:
                continue
            for a, b, c in itertools.product(itertools.product((0, 1), repeat=3), repeat=3):
                if c != a and not case["deep"]:
                    continue
                node = sd_mecha.model(rel)
                d = sd_mecha.Defaults(model_dirs=make(dirs), **OPTS)
                for n, present in enumerate((a, b, c)):
                    for i in range(3):
                        (disk.put if present[i] else disk.take)(i, rel)
                    s.state((ids, kind, a, b, c, n))
                    OPS["history"] = lambda recipe, arg: d.merge(recipe) if case["op"] == "defaults" else OPS[case["op"]](recipe, arg)
                    op = case["op"] if case["op"] != "defaults" else "history"
                    check(s, disk, dirs, rel, op, lambda: make(dirs), f"use {n + 1} of one recipe ({case['op']}, model_dirs={kind} of {[x.name for x in dirs]}) after the files were in {(a, b, c)[:n]}, now {present}", node)
    os.chdir("/")


def two(case, s):
    """Two models of one recipe are looked up independently, and one file given by two paths is one file."""
    setup()
    disk = Disk()
    os.chdir(disk.dirs[2])
    for pa in itertools.product((0, 1), repeat=3):
        for pb in itertools.product((0, 1), repeat=3):
            for p, rel in ((pa, NAMES[0]), (pb, NAMES[1])):
                for i in range(3):
                    if p[i]:
                        write_safetensors(disk.dirs[i] / rel, {"k": torch.tensor([float(i + 1) * (1 if rel == NAMES[0] else 16)])})
                    else:
                        disk.take(i, rel)
            for ids in ((), (0,), (1,), (0, 1), (1, 0)):
                dirs = [disk.dirs[i] for i in ids]
                want = [reference(disk, dirs, rel) for rel in NAMES]
                s.state((pa, pb, ids))
                s.trace()
                try:
                    got = sd_mecha.merge(sd_mecha.n_average(sd_mecha.model(NAMES[0]), sd_mecha.model(NAMES[1]), sd_mecha.model("./" + NAMES[0]), sd_mecha.model("sub/../" + NAMES[1])), model_dirs=dirs, **OPTS)
                except Exception as e:
                    if None not in want:
                        s.violation("two", f"files {disk.files()} in {[d.name for d in dirs]}: {e!r}")
                    continue
                if None in want:
                    s.violation("two", f"files {disk.files()} in {[d.name for d in dirs]}: a file is missing but the merge gives {got}")
                elif got["k"].item() != ((want[0] + 1) + (want[1] + 1) * 16) / 2:
                    s.violation("two", f"files {disk.files()} in {[d.name for d in dirs]}: {got}, expected the files of {want}")
    os.chdir("/")


def outputs(case, s):
    """A relative output is written to the first directory, an absolute one where it says."""
    setup()
    disk = Disk()
    os.chdir(disk.dirs[2])
    recipe = sd_mecha.model(tensors(3), "zzd-3")
    for ids in [x for x in LISTS if x[:1] != (9,)]:
        dirs = [disk.dirs[i] if i < 9 else disk.root / "missing" for i in ids]
        for kind, make in written(dirs).items():
            for rel in ("out.safetensors", "sub/out.safetensors", "./o.u t.safetensors", "ABS:out.safetensors"):
                rel = str(disk.dirs[3] / rel[4:]) if rel.startswith("ABS") else rel
                for path in (rel, pathlib.Path(rel)):
                    for where in (case["where"],):
                        for stale in (None, 0, 2):
                            for p in disk.files():
                                (disk.root / p).unlink()
                            if stale is not None and not os.path.isabs(rel):
                                write_safetensors(disk.dirs[stale] / rel, {"old": torch.tensor([9.0])})
                            before = {p: (disk.root / p).read_bytes() for p in disk.files()}
                            s.state((ids, kind, rel, where, type(path).__name__, stale))
                            s.trace()
                            what = f"{where} to {rel!r} with model_dirs={kind} of {[d.name for d in dirs]}"
                            try:
                                if where == "merge":
                                    sd_mecha.merge(recipe, output=path, model_dirs=make(dirs), **OPTS)
                                elif where == "defaults":
                                    sd_mecha.Defaults(model_dirs=make(dirs), **OPTS).merge(recipe, output=path)
                                else:
                                    sd_mecha.Defaults(model_dirs=disk.dirs[3], **OPTS).merge(recipe, output=path, model_dirs=make(dirs))
                            except Exception as e:
                                s.violation("output", f"{what}: {e!r}")
                                continue
                            want = pathlib.Path(rel) if os.path.isabs(rel) else (dirs[0] if dirs else disk.dirs[2]) / rel
                            name = str(want.resolve().relative_to(disk.root))
                            after = disk.files()
                            if after != set(before) | {name}:
                                s.violation("output", f"{what}: files {sorted(after)}, expected {name} to be written")
                                continue
                            got, _ = parse_safetensors((disk.root / name).read_bytes())
                            if set(got) != {"at3"}:
                                s.violation("output", f"{what}: {name} holds {sorted(got)}")
                            for p, b in before.items():
                                if p != name and (disk.root / p).read_bytes() != b:
                                    s.violation("output", f"{what}: {p} was changed")
    os.chdir("/")


PARTS = {"models": models, "history": history, "two": two, "outputs": outputs}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one operation with a placement of the files, a list of model directories and a way to write it; the file that was read shows in the result"
    ck.assumptions = ["the working directory does not change between creating a set of defaults and using it"]
    rels = ["m.safetensors", "sub/m.safetensors", "./m.safetensors", "sub/../m.safetensors", "../cwd/m.safetensors", NAMES[1], "ABS:m.safetensors", "ABS:sub/m.safetensors"]
    few = ["list of str", "generator", "str", "Path", "relative str"]
    ck.bounds = {"places": 3, "lists of directories": len(LISTS), "ways to write them": len(MANY) + len(SINGLE), "operations": len(OPS), "paths": len(rels)}
    ck.cases("models", models, [{"rel": r, "op": op, "kinds": None if T or (r == rels[0] and op in ("merge", "defaults", "convert")) else few} for r in rels if T or r not in rels[3:5] for op in OPS], chunk=1, limit=900)
    ck.cases("history", history, [{"op": op, "deep": T} for op in (OPS if T else ("merge", "convert", "defaults"))], chunk=1, limit=900)
    ck.cases("two", two, [{}])
    ck.cases("outputs", outputs, [{"where": w} for w in ("merge", "defaults", "call")], chunk=1, limit=900)
