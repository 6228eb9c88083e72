"""M12: the warnings and the progress of a merge report exactly what happened."""
import itertools
import threading
from .. import probes
from ..env import *
from ..core import scratch
from . import m05

F32 = torch.float32
BAD = {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan"), "big": 1e30, "huge": 1e300, "fine": 1.5, "max": 65504.0, "zero": 0.0}


class Listen(logging.Handler):
    """Collects what is logged at WARNING level or above."""

    def __enter__(self):
        self.records, self.root = [], logging.getLogger()
        self.level_before, self.before = self.root.level, self.root.handlers[:]
        self.root.handlers[:] = [self]
        self.root.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        self.root.handlers[:] = self.before
        self.root.setLevel(self.level_before)

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.records.append(record.getMessage())

    def named(self, names):
        """Which of these names (none is part of another) the messages mention."""
        return {n for n in names if any(n in r for r in self.records)}


class Bar:
    """A progress bar that records what it is told."""
    made = []
    lock = threading.Lock()

    def __init__(self, iterable=None, *a, total=None, **k):
        self.total, self.n, self.closed, self.top = total, 0, False, 0
        if self.total is None and hasattr(iterable, "__len__"):
            self.total = len(iterable)
        self.iterable = iterable
        Bar.made.append(self)

    def __iter__(self):
        for x in self.iterable or ():
            yield x
            self.update()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def update(self, n=1):
        with Bar.lock:
            self.n += n

    def __getattr__(self, name):
        return lambda *a, **k: None


def tensor(kinds, n):
    t = torch.full((n,), 0.25, dtype=torch.float64)
    for k, i in kinds:
        t[i % n] = BAD[k]
    return t


def bad_in(t):
    """Whether a tensor has a value that is infinite or not a number."""
    return bool((~torch.isfinite(t.to(torch.float64))).any()) if t.dtype.is_floating_point else False


CONFIG = "zzk-finite"


def ensure_config():
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, {"c": {k: {"shape": [3], "dtype": "float32"} for k in NAMES}}))
    except ValueError:
        pass


NAMES = ["zza.weight", "zzb.weight", "zzc.weight"]


def finite(case, s):
    ensure_config()
    root = pathlib.Path(scratch())
    names = NAMES
    for cells in case["models"]:
        data = {k: tensor([(kind, pos)], case["n"]) for k, (kind, pos) in zip(names, cells)}
        for dtype, check, threads in itertools.product(case["dtypes"], (..., True, False), (0, 2)):
            to_file = (threads == 0) == bool(len(cells[0][0]) % 2)
            dt = getattr(torch, dtype)
            node = sd_mecha.model({k: v.clone() for k, v in data.items()}, CONFIG)
            recipe = {"model": lambda: node, "method": lambda: probes.mc_scale(node, f=2.0), "created": lambda: probes.mc_scale(node, f=1e30), "removed": lambda: sd_mecha.weighted_sum(node, sd_mecha.model({k: torch.ones(case["n"], dtype=torch.float64) for k in names}, CONFIG), 1.0)}[case["recipe"]]()
            kw = dict(merge_dtype=torch.float64, output_dtype=dt, threads=threads, tqdm=NoBar, total_buffer_size=4096, strict_weight_space=False)
            if check is not ...:
                kw["check_finite"] = check
            s.trace()
            s.state((str(cells), dtype, str(check), case["recipe"], case["n"]))
            with Listen() as log:
                if to_file:
                    path = root / "m12.safetensors"
                    sd_mecha.merge(recipe, output=path, **kw)
                else:
                    out = sd_mecha.merge(recipe, **kw)
            if to_file:
                raw, _ = parse_safetensors(path.read_bytes())
                out = {k: torch.frombuffer(bytearray.fromhex(v[2]), dtype=DT[v[0]]).reshape(v[1]) for k, v in raw.items()}
            s.step(len(out))
            want = {k for k, v in out.items() if bad_in(v)} if check is not False else set()
            got = log.named(names)
            if got != want:
                s.violation("non-finite", f"{case['recipe']} of {dict(zip(names, cells))} to {dtype}, check_finite={check}, threads={threads}, {'file' if to_file else 'memory'}: warnings name {sorted(got)}, the output is not finite in {sorted(want)}")
    s.sample({"recipe": case["recipe"], "model": cells, "warned": sorted(want)})


def extra(case, s):
    """Unrecognised keys: named by a warning when they are dropped; a missing mandatory key is named by the error."""
    m05.ensure_config()
    root = pathlib.Path(scratch())
    marks = {k: f"zzx{k}zzx" for k in ("u", "v")}
    for i, (models, kind, o) in enumerate(case["runs"]):
        opts = m05.OPTIONS[o]
        named = [[marks.get(k, k) for k in m] for m in models]
        leaves = []
        for j, ks in enumerate(named):
            data = {k: torch.full((2,), 1.0 + j) for k in ks}
            if kind == "file":
                path = root / f"m12_{j}.safetensors"
                write_safetensors(path, data)
                leaves.append(sd_mecha.model(path, m05.CONFIG))
            else:
                leaves.append(sd_mecha.literal(data, m05.CONFIG, "weight"))
        recipe = leaves[0] if len(leaves) == 1 else leaves[0] | leaves[1]
        reject = opts.get("check_mandatory_keys", False)
        lacking = [{k for k in m05.MANDATORY if not ({k, *m05.ALIASES.get(k, [])} & set(m))} for m in models]
        s.trace()
        s.state((str(models), kind, o))
        where = f"{models} ({kind}) {opts}"
        err = None
        with Listen() as log:
            try:
                sd_mecha.merge(recipe, threads=0, total_buffer_size=4096, tqdm=NoBar, **opts)
            except RuntimeError as e:
                err = e
        s.step()
        if err is not None:
            first = next((m for m in lacking if m), set()) if reject else set()
            quoted = {k for k in m05.NAMES if f"'{k}'" in str(err)}
            if not first or quoted != first:
                s.violation("mandatory", f"{where}: {err} (first model lacking keys lacks {sorted(first)})")
            continue
        want = {marks[k] for m in models for k in m if k in marks} if opts.get("omit_extra_keys", True) else set()
        got = log.named(marks.values())
        if got != want:
            s.violation("extra-keys", f"{where}: warnings name {sorted(got)}, dropped are {sorted(want)}")
        known = {k for k in m05.NAMES if any(f"'{k}'" in r for r in log.records)}
        if known:
            s.violation("extra-keys-known", f"{where}: warnings name the known keys {sorted(known)}")


def progress(case, s):
    m05.ensure_config()
    root = pathlib.Path(scratch())
    for shape, models, o in case["runs"]:
        opts = m05.OPTIONS[o]
        if opts.get("check_mandatory_keys"):
            continue
        n, build, _ = m05.SHAPES[shape]
        for threads, to_file in ((0, False), (2, False), (1, True), (3, True)):
            leaves = [m05.leaf(i, m, "memory", root) for i, m in enumerate(models)]
            Bar.made.clear()
            kw = {"fallback_model": leaves[1]} if "option" in shape else {}
            s.trace()
            s.state((shape, str(models), o, threads))
            out = sd_mecha.merge(build(lambda i: leaves[i]), threads=threads, total_buffer_size=4096, tqdm=Bar, output=root / "m12.safetensors" if to_file else None, **kw, **opts)
            where = f"{shape} of {models} {opts} threads={threads}"
            s.step()
            extra = not opts.get("omit_extra_keys", True)
            want = set(m05.KEYS) | ({k for m in models for k in m if k not in m05.CANON} if extra else set())
            if opts.get("omit_ema", not extra):
                want -= {"e"}
            bars = [b for b in Bar.made if b.total is not None]
            if len(bars) != 1:
                s.violation("bars", f"{where}: {len(bars)} progress bars")
            elif (bars[0].total, bars[0].n, bars[0].closed) != (len(want), len(want), True):
                s.violation("progress", f"{where}: the bar ended at {bars[0].n} of {bars[0].total} (closed: {bars[0].closed}), {len(want)} keys were merged")


def recipe_text(case, s):
    """A merge to a file warns exactly when the file cannot hold the recipe."""
    root = pathlib.Path(scratch())
    t = {"zzk.a": torch.ones(2), "zzk.b": torch.zeros(3)}
    src, out = root / "m12_src.safetensors", root / "m12_out.safetensors"
    write_safetensors(src, t)
    makers = {
        "file": (True, lambda: sd_mecha.model(src)),
        "file twice": (True, lambda: sd_mecha.weighted_sum(sd_mecha.model(src), sd_mecha.model(src), 0.5)),
        "memory": (False, lambda: sd_mecha.model(dict(t))),
        "memory and file": (False, lambda: sd_mecha.weighted_sum(sd_mecha.model(src), sd_mecha.model(dict(t)), 0.5)),
        "tensor parameter": (False, lambda: sd_mecha.weighted_sum(sd_mecha.model(src), sd_mecha.model(src), sd_mecha.literal(torch.tensor(0.5)))),
        "dictionary parameter": (True, lambda: sd_mecha.weighted_sum(sd_mecha.model(src), sd_mecha.model(src), {"zzk.a": 0.25, "zzk.b": 1.0})),
    }
    for name, threads in itertools.product(makers, (0, 2)):
        fits, make = makers[name]
        s.trace()
        s.step()
        s.state((name, threads))
        with Listen() as log:
            sd_mecha.merge(make(), output=out, threads=threads, tqdm=NoBar, total_buffer_size=4096, strict_weight_space=False)
        _, meta = parse_safetensors(out.read_bytes())
        if ("mecha_recipe" in meta) != fits:
            s.violation("recipe", f"{name}: metadata {meta}")
        if bool([r for r in log.records if "recipe" in r.lower()]) == fits:
            s.violation("recipe-warning", f"{name}: the file {'holds' if fits else 'lacks'} the recipe, logged: {log.records}")


PARTS = {"non-finite values": finite, "unrecognised and missing keys": extra, "progress": progress, "recipe text": recipe_text}


def run(ck):
    cells = [(k, i) for k in BAD for i in (0, -1)]
    trios = [((k, i), ("fine", 0), (k2, j)) for (k, i) in cells for (k2, j) in cells]
    pick = trios if ck.thorough else trios[::5] + trios[:16]
    dtypes = ["float16", "float32", "float64", "bfloat16", "int32", "float8_e5m2"]
    cases = [{"models": pick[i:i + 6], "n": n, "dtypes": dtypes if ck.thorough else dtypes[j % 2::2], "recipe": r}
             for r in ("model", "method", "created", "removed") for j, n in enumerate((1, 3, 70000)) for i in range(0, len(pick), 6) if n < 9 or i < 12]
    ck.rule = "a state is a combination of inputs and options; the log records of warning level are compared with the output actually produced, the progress bar with the keys merged"
    ck.bounds = {"values": list(BAD), "models": len(pick), "dtypes": dtypes, "options": len(m05.OPTIONS)}
    ck.cases("non-finite values", finite, cases, chunk=1)
    sets = m05.subsets(["m", "l_one", "e", "u", "v"])
    runs = [([a], k, o) for a in sets if a for k in ("file", "literal") for o in range(0, 27, 1 if ck.thorough else 4)]
    runs += [([a, b], ("file", "literal")[(i + j) % 2], o) for i, a in enumerate(sets) for j, b in enumerate(sets) if a and b for o in ((0, 13, 9, 11, 18, 20, 26) if ck.thorough else (0, 11, 20))]
    runs += [([a], k, o) for a in m05.subsets(["m", "l", "l_one", "l_two", "u"]) if "l_two" in a or "l" in a for k in ("file", "literal") for o in range(0, 27, 2 if ck.thorough else 9)]
    ck.cases("unrecognised and missing keys", extra, [{"runs": runs[i:i + 60]} for i in range(0, len(runs), 60)], chunk=1)
    sets = [["m"], ["m", "l"], ["m", "l_two", "u"], ["o", "e", "v"], ["u", "v"], []]
    runs = [(sh, [a] if m05.SHAPES[sh][0] == 1 else [a, b], o) for sh in m05.SHAPES if sh not in m05.FORWARDED and sh not in m05.SPACES for a in sets for b in sets if a or b for o in range(0, 27, 2 if ck.thorough else 6) if a and (b or m05.SHAPES[sh][0] == 1)]
    seen = []
    for r in runs:
        if r not in seen:
            seen.append(r)
    ck.cases("progress", progress, [{"runs": seen[i:i + 30]} for i in range(0, len(seen), 30)], chunk=1)
    ck.cases("recipe text", recipe_text, [{}])
