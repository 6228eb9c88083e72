"""M02: the result of a merge does not depend on thread scheduling (all schedules up to a deviation bound)."""
from .. import probes, sched, fsfault
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD
from sd_mecha.extensions.builtin import merge_methods as builtin_methods

CONFIG = "zzm-s"
SHAPES = {"a": (2,), "b": (3,), "c": (1, 2), "d": (2, 2), "e": (1,)}


@sd_mecha.merge_method(identifier="mc_cached")
def mc_cached(a: P(SD[Tn]), **kwargs) -> Rt(Tn):
    """Shares work between keys through the cache of the node, as the caching methods do."""
    cache, key = kwargs["cache"], kwargs["key"]
    if cache is None:
        return a[key] * 2
    if key not in cache:
        cache[key] = a[key] * 2
    return cache[key].clone()


def tensors(i, keys, lacks=""):
    return {k: (torch.arange(numel(SHAPES[k]), dtype=torch.float32) + 2 + 3 * i + 32 * (i + 1) * "abcde".index(k)).reshape(SHAPES[k]) for k in keys if k not in lacks}


def numel(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def fresh_config(kind, keys, root):
    """A config object nothing has used yet: its lazily computed tables are part of the race."""
    spec = {"c": {k: {"shape": list(SHAPES[k]), "dtype": "float32", "aliases": [k + "_alias"]} for k in keys}}
    if kind == "structural":
        return None
    if kind == "yaml":
        path = root / f"{CONFIG}.yaml"
        if not path.exists():
            path.write_text(model_configs.to_yaml(model_configs.ModelConfigImpl(CONFIG, spec)))
        return model_configs.YamlModelConfig(path)
    return model_configs.ModelConfigImpl(CONFIG, spec)


def scenario(name, root):
    """-> body building and running one merge from fresh objects: {key: fingerprint}"""
    kind, shape, keys, threads, buffer, to_file = SCENARIOS[name]
    config = fresh_config(kind, keys, root)
    files = {}
    for i, lacks in ((0, keys[0]), (1, ""), (2, keys[-1])):
        files[i] = root / f"m02_{keys}_{i}.safetensors"
        if not files[i].exists():
            write_safetensors(files[i], tensors(i, keys, lacks))
    mem = lambda i, **k: sd_mecha.model(tensors(i, keys, **k), config)
    aliased = lambda i: sd_mecha.model({(k + "_alias" if n % 2 else k): v for n, (k, v) in enumerate(tensors(i, keys).items())}, config)
    f = lambda i: sd_mecha.model(files[i], config)
    if shape == "files":
        recipe = sd_mecha.n_average(f(1), f(2) | f(1))
    elif shape == "next":
        recipe = probes.mc_next(f(1))
    elif shape == "total":
        recipe = probes.mc_total(f(1), f(1))
    elif shape == "missing":
        recipe = sd_mecha.weighted_sum(f(0), f(2), 0.5)
    elif shape == "memory":
        recipe = sd_mecha.add_difference(mem(0), mem(1), mem(2), alpha=0.5)
    elif shape == "aliased":
        recipe = sd_mecha.n_average(aliased(0), mem(1))
    elif shape == "one":
        recipe = f(1)
    elif shape == "cached":
        recipe = mc_cached(f(1))
        recipe.cache = {}
    elif shape == "ties":
        d = f(1) - mem(0)
        recipe = mem(0) + sd_mecha.n_average(d, f(1) - mem(2))
    else:
        raise ValueError(shape)
    path = root / "m02_out.safetensors"
    mine = {}

    def body():
        sd_mecha.merge(recipe, threads=threads, total_buffer_size=buffer, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar,
                       output=path if to_file else mine)
        if to_file:
            return parse_safetensors(path.read_bytes())[0]
        return {k: fingerprint(v) for k, v in mine.items()}

    return body


# config, recipe, keys, threads, total buffer, to a file
SCENARIOS = {
    "files": ("impl", "files", "ab", 2, 30, False),
    "files-file": ("impl", "one", "ab", 2, 24, True),
    "files-3": ("impl", "one", "abc", 3, 0, False),
    "next": ("impl", "next", "abc", 2, 20, False),
    "total": ("impl", "total", "ab", 2, 0, False),
    "missing": ("impl", "missing", "abc", 2, 60, False),
    "missing-file": ("impl", "missing", "abc", 2, 60, True),
    "memory": ("impl", "memory", "ab", 2, 0, False),
    "aliased": ("impl", "aliased", "ab", 2, 0, False),
    "aliased-yaml": ("yaml", "aliased", "ab", 2, 0, False),
    "structural": ("structural", "files", "ab", 2, 30, False),
    "structural-file": ("structural", "one", "ab", 2, 100, True),
    "cached": ("impl", "cached", "ab", 2, 40, False),
    "ties": ("impl", "ties", "ab", 2, 100, False),
}
MODULES = {
    "all": lambda: [merging, streaming, model_configs, merge_methods, recipe_nodes],
    "merging": lambda: [merging, model_configs],
    "streaming": lambda: [streaming],
}


def schedules(case, s):
    root = pathlib.Path(scratch())
    kind, shape, keys, threads, buffer, to_file = SCENARIOS[case["scenario"]]
    sched.deinstrument()
    want = sequential(case["scenario"], root)

    def verdict(res):
        if res.error is not None:
            return f"error-{type(res.error).__name__}", repr(res.error)
        s.state(sorted(res.value.items()))
        if res.value != want:
            bad = sorted(k for k in set(want) | set(res.value) if want.get(k) != res.value.get(k))
            return "content", f"the threaded merge differs from the sequential one at {bad}: keys {sorted(res.value)} / {sorted(want)}"

    sched.instrument(MODULES[case["modules"]]())
    with fsfault.Layer(scratch()):
        if "schedule" in case:
            r = sched.execute(scenario(case["scenario"], root), [tuple(x) for x in case["schedule"]])
            bad = r.problem or verdict(r)
            if bad:
                s.violation(bad[0], bad[1])
            return
        s.count("schedules", sched.explore(lambda: scenario(case["scenario"], root), verdict, s, case["bound"], case["slice"]))
    s.sample({k: case[k] for k in ("scenario", "modules", "bound")})


def sequential(name, root):
    old = SCENARIOS[name]
    SCENARIOS[name] = (*old[:3], 0, 10 ** 6, False)
    try:
        return scenario(name, root)()
    finally:
        SCENARIOS[name] = old


PARTS = {"schedules": schedules}


def run(ck):
    confs = []
    if ck.thorough:
        confs += [(n, "all", 1) for n in SCENARIOS]
        confs += [(n, "streaming", 2) for n in ("files", "files-file", "total")] + [(n, "merging", 2) for n in ("memory", "aliased")]
        J = 64
    else:
        confs += [(n, "all", 1) for n in ("files", "files-file", "aliased", "aliased-yaml", "missing", "total", "cached")]
        J = 8
    ck.rule = "every schedule within the deviation bound is executed on the real merge; states are joint control states and results"
    ck.bounds = {"configurations": [list(c) for c in confs], "columns": ["scenario", "instrumented modules", "deviations"], "scenarios": SCENARIOS}
    ck.assumptions = ["switches happen at lines of the project's modules, around file operations and at blocking operations; standard library and torch code runs unpreempted"]
    ck.cases("schedules", schedules, [{"scenario": n, "modules": m, "bound": b, "slice": [j, J]} for n, m, b in confs for j in range(J)], chunk=1, limit=900)
