"""D01: an operation through defaults equals the plain operation with the options resolved."""
import concurrent.futures.thread as pools
import itertools
import logging
import os
import pathlib
from ..core import scratch
from ..env import *
from ..probes import P, Rt, Tn, SD

CONF = "zzo-all"
UNSET = ...
SEEN = []
READY = []


class Bar1(NoBar):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        SEEN.append(("bar", type(self).__name__))


class Bar2(Bar1):
    pass


def setup():
    f32 = {"shape": [2], "dtype": "float32"}
    model_configs.register(model_configs.ModelConfigImpl(CONF, {"c": {"k0": f32, "k1": f32 | {"optional": True}, "k2": f32}, "ema": {"e": f32 | {"optional": True}}}))

    @sd_mecha.merge_method(identifier="mc_seen")
    def mc_seen(a: P(Tn)) -> Rt(Tn):
        """Records in which dtype and on which device the operands are computed."""
        SEEN.append(("compute", str(a.dtype), str(a.device)))
        return a / 3


# option -> values; the first one differs from the library's default in an observable way
VALUES = {
    "merge_device": ["meta", None, "cpu"],
    "merge_dtype": [torch.float32, None, torch.bfloat16],
    "output_device": ["meta", None, "cpu"],
    "output_dtype": [torch.float64, None, torch.bfloat16],
    "threads": [3, 0, None, 1],
    "total_buffer_size": [640, 1 << 12],
    "model_dirs": ["d0", "d1", ()],
    "strict_weight_space": [False, True],
    "check_finite": [False, True],
    "omit_extra_keys": [False, True],
    "omit_ema": [False, True],
    "check_mandatory_keys": [True, False],
    "tqdm": [Bar1, Bar2],
}
CALL_ONLY = {"output": [{}, "o.safetensors"], "fallback_model": ["spare", None]}


class World:
    def __init__(self):
        import shutil
        root = pathlib.Path(scratch()).resolve() / "d01"
        shutil.rmtree(root, ignore_errors=True)
        self.root = root
        for i, d in enumerate(("d0", "d1", "cwd")):
            (root / d).mkdir(parents=True)
            write_safetensors(root / d / "m.safetensors", {k: torch.full((2,), 1.0 + i + j / 7) for j, k in enumerate(("k0", "k2", "e", "extra"))})
        os.chdir(root / "cwd")
        seen = merge_methods.resolve("mc_seen")
        inf = {"k0": torch.tensor([1.0, float("inf")]), "k2": torch.ones(2), "e": torch.ones(2), "more": torch.ones(2)}
        file = lambda: sd_mecha.model("m.safetensors", CONF)
        self.recipes = {
            "plain": seen(sd_mecha.n_average(file(), sd_mecha.model(inf, CONF))),
            "delta": seen(file() - sd_mecha.model(inf, CONF)),
            "lacking": seen(sd_mecha.model({"k0": torch.ones(2), "e": torch.ones(2)}, CONF)),
        }

    def value(self, option, v):
        if option == "model_dirs" and isinstance(v, str):
            return self.root / v
        if option == "fallback_model" and v is not None:
            return sd_mecha.model({k: torch.full((2,), 9.0) for k in ("k0", "k1", "k2")}, CONF)
        if option == "output" and isinstance(v, dict):
            return {"was": "there"}
        return v

    def resolve(self, options):
        return {k: self.value(k, v) for k, v in options.items()}


class Records(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.WARNING:
            SEEN.append(("log", record.getMessage()))


def spied(cls, name):
    """Record the arguments an object of the library is made with; both sides of the comparison see the same."""
    old = cls.__init__

    def init(self, *a, **k):
        SEEN.append((name, [x for x in (*a, *k.values()) if isinstance(x, int) or x is None]))
        old(self, *a, **k)
    cls.__init__ = init
    return lambda: setattr(cls, "__init__", old)


def sorted_file(path):
    """The order of the tensors in a file depends on the schedule of the workers."""
    try:
        got, meta = parse_safetensors(path.read_bytes())
        return sorted(got.items()), meta
    except BadFile:
        return "incomplete"


def run_one(fn, world, options):
    """Everything that can be observed of one operation."""
    SEEN.clear()
    undo = [spied(pools.ThreadPoolExecutor, "pool"), spied(streaming.InSafetensorsDict, "in"), spied(streaming.OutSafetensorsDict, "out")]
    handler = Records()
    logger = logging.getLogger()
    logging.disable(logging.NOTSET)
    logger.addHandler(handler)
    out = options.get("output")
    try:
        got = fn()
        same = got is out if isinstance(out, dict) else None
        got = None if got is None else {k: fingerprint(v) if not getattr(v, "is_meta", False) else ("meta", str(v.dtype), tuple(v.shape)) for k, v in got.items()}
        result = ("gave", same, got)
    except Exception as e:
        result = ("raised", type(e).__name__, str(e))
    finally:
        logger.removeHandler(handler)
        logging.disable(logging.CRITICAL)
        for u in undo:
            u()
    files = {}
    for p in sorted(world.root.rglob("o.safetensors")):
        files[str(p.relative_to(world.root))] = repr(sorted_file(p))
        p.unlink()
    seen = SEEN
    if result[0] == "raised":  # what other keys got to before the failure depends on the schedule
        seen = [x for x in SEEN if x[0] not in ("compute", "log")]
    return {"result": result, "seen": sorted(set(map(repr, seen))), "files": files}


def compare(s, world, name, defaults, call, through=None):
    """One operation with these defaults and these options of the call, and the plain operation."""
    resolved = {**{k: v for k, v in defaults.items() if v is not UNSET}, **{k: v for k, v in call.items() if v is not UNSET}}
    recipe = world.recipes[name]
    s.trace()
    s.state((name, repr(defaults), repr(call)))
    opts, plain = world.resolve(call), world.resolve(resolved)
    d = through or sd_mecha.Defaults(**world.resolve(defaults))
    got = run_one(lambda: d.merge(recipe, **opts), world, opts)
    want = run_one(lambda: sd_mecha.merge(recipe, **plain), world, plain)
    if got != want:
        part = next(k for k in got if got[k] != want[k])
        s.violation("differs", f"Defaults({defaults}).merge({name!r}, {call}) and merge({name!r}, {resolved}): {part} {str(got[part])[:400]} instead of {str(want[part])[:400]}")
    return want


def prepare():
    if not READY:
        setup()
        # the first computation on the meta device makes torch start a pool of its own
        w = World()
        for r in w.recipes.values():
            for merge_device, output_device in itertools.product(("meta", "cpu"), repeat=2):
                run_one(lambda: sd_mecha.merge(r, merge_device=merge_device, output_device=output_device, strict_weight_space=False, **BASE), w, {})
        READY.append(True)
    return World()


BASE = {"total_buffer_size": 1 << 12, "tqdm": NoBar, "threads": 0, "merge_dtype": torch.float64, "output_dtype": torch.float32}


def settings(option):
    """(in the defaults, in the call) of one option: unset, each value on one side, and all pairs of values."""
    vs = VALUES[option]
    yield UNSET, UNSET
    for v in vs:
        yield v, UNSET
        yield UNSET, v
    for a, b in itertools.product(vs, vs):
        if a is not b:
            yield a, b


def single(case, s):
    """One option, every pair of settings; then the same defaults used again without and with the option."""
    world = prepare()
    option = case["option"]
    distinct = set()
    for a, b in settings(option):
        base = {k: v for k, v in BASE.items() if k != option and (k in ("total_buffer_size",) or case["base"])}
        for name in world.recipes if option != "total_buffer_size" or case["deep"] else ["plain"]:  # the default buffer takes long to allocate
            for explicit in (False, True):
                defaults = {option: a} if a is not UNSET or explicit else {}
                call = {option: b} if b is not UNSET or explicit else {}
                distinct.add(repr(compare(s, world, name, defaults, base | call)))
                compare(s, world, name, base | defaults, call)
                shared = sd_mecha.Defaults(**world.resolve(base | defaults))
                for c in (call, {}, call):
                    compare(s, world, name, base | defaults, c, through=shared)
    if len(distinct) < 2:
        s.inconclusive.append(f"the values of {option} make no difference")
        s.count("no difference", 1)
    s.sample({"option": option, "distinct behaviours": len(distinct)})


def pairs(case, s):
    """Two options (or an option and one that only calls have): each set in neither, one, or both places."""
    world = prepare()
    options = case["options"]
    table = VALUES | CALL_ONLY
    ways = {o: [(UNSET, UNSET), (table[o][0], UNSET), (UNSET, table[o][0]), (table[o][0], table[o][1]), (table[o][1], table[o][0])] if o in VALUES
            else [(UNSET, UNSET), (UNSET, table[o][0]), (UNSET, table[o][1])] for o in options}
    for chosen in itertools.product(*(ways[o] for o in options)):
        defaults = {o: a for o, (a, _) in zip(options, chosen) if a is not UNSET}
        call = {o: b for o, (_, b) in zip(options, chosen) if b is not UNSET}
        base = {k: v for k, v in BASE.items() if k not in options}
        for name in world.recipes if "total_buffer_size" not in options or case["deep"] else ["plain"]:
            compare(s, world, name, base | defaults, call)


def everything(case, s):
    """All options at once: each value set in the defaults, overridden or not, and left unset."""
    world = prepare()
    for turn in case["turns"]:
        full = {o: vs[turn % len(vs)] for o, vs in VALUES.items()}
        for name in world.recipes:
            compare(s, world, name, full, {})
            compare(s, world, name, {}, full)
            for left_out in VALUES:
                compare(s, world, name, {k: v for k, v in full.items() if k != left_out} | ({"total_buffer_size": 640} if left_out == "total_buffer_size" else {}), {})
                compare(s, world, name, full, {left_out: VALUES[left_out][(turn + 1) % len(VALUES[left_out])]})
    dirs = [world.root / "d1", world.root / "d0"]
    got = run_one(lambda: sd_mecha.Defaults(dirs, **BASE).merge(world.recipes["plain"]), world, {})
    want = run_one(lambda: sd_mecha.merge(world.recipes["plain"], model_dirs=dirs, **BASE), world, {})
    if got != want:
        s.violation("positional", f"Defaults(dirs): {got} instead of {want}")


PARTS = {"single": single, "pairs": pairs, "everything": everything}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one operation through a set of defaults and the plain operation with the options resolved; result, exception, warnings, computation dtype and device, pool size, buffer sizes and files are compared"
    ck.assumptions = ["the plain operation with explicit options is the reference; what each option does is decided by the other properties (M and S)"]
    ck.bounds = {"options": len(VALUES), "values per option": "2-4", "simultaneously set options": 3 if T else 2}
    ck.cases("single", single, [{"option": o, "base": b, "deep": T} for o in VALUES for b in (True, False)], chunk=1, limit=900)
    names = [*VALUES, *CALL_ONLY]
    ck.cases("pairs", pairs, [{"options": p, "deep": T} for p in itertools.combinations(names, 2)] + ([{"options": p, "deep": False} for p in itertools.combinations(names, 3)] if T else []), chunk=1, limit=900)
    ck.cases("everything", everything, [{"turns": [i]} for i in range(4)], chunk=1, limit=900)
