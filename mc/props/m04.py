"""M04: model files are closed and no thread remains after an operation, however it ends."""
import sys
import threading
from .. import probes, fsfault
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

LEVEL = "fault_enumeration"
CONFIG = "zzm-r"
KEYS = ["a", "b", "c"]
TRIP = {"n": 0, "at": None, "kind": RuntimeError, "lock": threading.Lock()}


class Boom(RuntimeError):
    pass


class BoomBase(KeyboardInterrupt):
    pass


def trip(what):
    """One call from the library into code that may fail; the enumeration makes the n-th of them fail."""
    with TRIP["lock"]:
        i = TRIP["n"]
        TRIP["n"] += 1
        if i == TRIP["at"]:
            raise TRIP["kind"](f"{what} (call {i})")


class TripConfig(model_configs.ModelConfigImpl):
    def __hash__(self):
        return hash(self.identifier)

    def keys(self):
        trip("config keys")
        return super().keys()

    def metadata(self):
        trip("config metadata")
        return super().metadata()

    def aliases(self):
        trip("config aliases")
        return super().aliases()


def config():
    return TripConfig(CONFIG, {"c": {k: {"shape": [2], "dtype": "float32", "aliases": [k + "_alias"]} for k in KEYS}})


class TripBar(NoBar):
    def __init__(self, *a, **k):
        trip("progress bar")

    def __enter__(self):
        trip("progress bar enter")
        return self

    def __exit__(self, *a):
        trip("progress bar exit")
        return False

    def set_postfix(self, *a, **k):
        trip("progress bar text")

    def update(self, *a, **k):
        trip("progress bar update")


class TripDict(dict):
    def __setitem__(self, k, v):
        trip("output item")
        super().__setitem__(k, v)


@sd_mecha.merge_method(identifier="mc_trip")
def mc_trip(a: P(Tn)) -> Rt(Tn):
    trip("method")
    return a + 1


@sd_mecha.merge_method(identifier="mc_trip_sd")
def mc_trip_sd(a: P(SD[Tn]), **kwargs) -> Rt(Tn):
    trip("method")
    out = a[kwargs["key"]]
    trip("method after a read")
    return out


@sd_mecha.merge_method(identifier="mc_trip_kw")
def mc_trip_kw(a: P(Tn), *, b: P(SD[Tn]), c: P(Tn) = 0.0, **kwargs) -> Rt(Tn):
    trip("method")
    return a + b[kwargs["key"]] + c


def prepare(root):
    sys.unraisablehook = lambda *a: None  # half-built objects complain while being collected
    for i in range(3):
        write_safetensors(root / f"m04_{i}.safetensors", {k: torch.full((2,), float(i + j)) for j, k in enumerate(KEYS) if (i, k) != (2, "b")}, {"note": "x"})
    (root / "m04_bad.safetensors").write_bytes(b"\x08\0\0\0\0\0\0\0{broken}")
    (root / "m04_empty.safetensors").write_bytes(b"")
    (root / "m04_model.ckpt").write_bytes(b"?")


def recipes(root):
    c = config()
    f = lambda i, cfg=c: sd_mecha.model(root / f"m04_{i}.safetensors", cfg)
    mem = lambda: sd_mecha.model({k: torch.ones(2) for k in KEYS}, c)
    return {
        "one": lambda: f(0),
        "two": lambda: sd_mecha.n_average(f(0), f(1)),
        "same twice": lambda: sd_mecha.n_average(f(0), f(0)),
        "method": lambda: mc_trip(mc_trip_sd(f(0))),
        "fallback node": lambda: f(2) | f(1),
        "nested": lambda: sd_mecha.literal({"a": mc_trip(f(0)), "b": f(1), "c": f(0)}, c, "weight"),
        "mixed": lambda: sd_mecha.add_difference(mem(), f(1), f(0), alpha=0.5),
        "keyword": lambda: mc_trip_kw(f(0), b=f(1)),
        "keywords": lambda: sd_mecha.n_average(mem(), mc_trip_kw(mem(), b=mc_trip_kw(f(0), b=mem()), c=sd_mecha.literal({k: 0.5 for k in KEYS}, c))),
        "parameter": lambda: sd_mecha.weighted_sum(f(0), f(1), alpha=0.5),
    }


def broken(root):
    """Recipes that must fail, by themselves or through an option, after at least one file was opened."""
    c = config()
    f = lambda i, cfg=c: sd_mecha.model(root / f"m04_{i}.safetensors", cfg)
    return {
        "missing file": (lambda: sd_mecha.n_average(f(0), f(9)), {}),
        "missing file first": (lambda: sd_mecha.n_average(f(9), f(0)), {}),
        "damaged header": (lambda: sd_mecha.n_average(f(0), f("bad")), {}),
        "keyword": (lambda: mc_trip_kw(f(0), b=f(1)) | f(9), {}),
        "keyword first": (lambda: mc_trip_kw(f("bad"), b=f(1)), {}),
        "empty file": (lambda: sd_mecha.n_average(f(0), f("empty")), {}),
        "unknown format": (lambda: sd_mecha.n_average(f(0), sd_mecha.model(root / "m04_model.ckpt", c)), {}),
        "not inferable": (lambda: sd_mecha.n_average(f(0), f(1, model_configs.INFER)), {}),
        "mandatory": (lambda: sd_mecha.n_average(f(0), f(2)), {"check_mandatory_keys": True}),
        "delta space": (lambda: f(0) - f(1), {}),
        "no such output directory": (lambda: f(0), {"output": root / "nowhere" / "o.safetensors"}),
        "output is a directory": (lambda: f(0), {"output": root}),
        "bad dtype of output": (lambda: f(0), {"output_dtype": torch.complex64, "output": root / "m04_o.safetensors"}),
        "bad device": (lambda: f(0), {"merge_device": "nonsense"}),
        "bad fallback": (lambda: f(0), {"fallback_model": root / "m04_9.safetensors"}),
    }


def files_open(root):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
        if t.startswith(str(root) + os.sep):
            out.append(os.path.basename(t))
    return sorted(out)


def threads_alive(before):
    extra = [t for t in threading.enumerate() if t not in before]
    for t in extra[:]:  # a thread past its last statement may still be unregistering itself
        t.join(0.2)
        if not t.is_alive():
            extra.remove(t)
    return [t.name for t in extra]


def observe(op, root, threads_before):
    """Run op; what is still open while its outcome (result or exception) is held."""
    result = error = None
    try:
        result = op()
    except BaseException as e:
        if type(e).__name__ in ("CaseTimeout", "Abort"):
            raise
        error = e
    left = (files_open(root), threads_alive(threads_before))
    return result, error, left


def merge_op(make, root, opts):
    recipe = make()

    def op():
        kw = dict(total_buffer_size=64, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=TripBar, threads=opts.get("threads", 0))
        kw.update({k: v for k, v in opts.items() if k not in ("to",)})
        to = opts.get("to")
        if to == "file":
            kw.setdefault("output", root / "m04_out.safetensors")
        elif to == "mapping":
            kw.setdefault("output", TripDict())
        got = sd_mecha.merge(recipe, **kw)
        if to == "file":
            return parse_safetensors((root / "m04_out.safetensors").read_bytes())[0]
        return prints(got)
    return op


def open_op(make, root, opts):
    recipe = make()

    def op():
        with sd_mecha.open_input_dicts(recipe, [], opts.get("buffer", 16)):
            trip("body of an explicit opening")
            n = len(files_open(root))
        return n
    return op


def convert_op(make, root, opts):
    recipe = make()

    def op():
        try:
            sd_mecha.convert(recipe, CONFIG if opts.get("same") else "sd1-ldm")
            return "converted"
        except ValueError as e:
            if not opts.get("same"):
                return "no conversion"
            raise
    return op


OPS = {"merge": merge_op, "open": open_op, "convert": convert_op}


def clean(root, before, s, where, left):
    files, threads = left
    if files:
        s.violation("files", f"{where}: still open: {files}")
    if threads:
        s.violation("threads", f"{where}: still running: {threads}")
    return not (files or threads)


def enumerate_failures(case, s):
    root = pathlib.Path(scratch())
    prepare(root)
    before = list(threading.enumerate())
    make = recipes(root)[case["recipe"]]
    opts = dict(case["opts"])
    kinds = {"RuntimeError": Boom, "KeyboardInterrupt": BoomBase}
    TRIP.update(n=0, at=None)
    want, error, left = observe(OPS[case["op"]](make, root, opts), root, before)
    s.trace()
    if error is not None:
        return s.violation("fails", f"{case}: unfaulted run raises {error!r}")
    clean(root, before, s, f"{case}, no failure", left)
    i = 0
    while i < 400:
        op = OPS[case["op"]](make, root, opts)  # one recipe object, failed and then merged again
        if case["fault"] == "call":
            TRIP.update(n=0, at=i, kind=kinds[case["kind"]])
            result, error, left = observe(op, root, before)
            hit = TRIP["n"] > i
        else:
            TRIP.update(n=0, at=None)
            with fsfault.Layer(root, {i: case["kind"]}) as layer:
                result, error, left = observe(op, root, before)
                hit = bool(layer.hit)
        TRIP["at"] = None
        s.trace()
        s.step()
        s.state((case["op"], case["recipe"], str(opts), case["fault"], case["kind"], i))
        where = f"{case['op']} of {case['recipe']} {opts}, {case['fault']} {i} fails with {case['kind']}: {error!r}"
        if not hit:
            break
        clean(root, before, s, where, left)
        error = None
        # a second run of the same recipe, without failure
        again, error2, left = observe(op, root, before)
        if error2 is not None or again != want:
            s.violation("again", f"{where}; merging the recipe again gives {error2!r} / {again == want}")
        clean(root, before, s, where + ", then again", left)
        i += 1
    s.cmax("failure_points", i)
    s.sample({k: case[k] for k in ("op", "recipe", "opts", "fault", "kind")} | {"points": i})


def failing(case, s):
    root = pathlib.Path(scratch())
    prepare(root)
    before = list(threading.enumerate())
    TRIP.update(n=0, at=None)
    make, opts = broken(root)[case["recipe"]]
    for threads in (0, 2):
        for op_kind in ("merge", "open", "convert"):
            op = OPS[op_kind](make, root, dict(opts, threads=threads))
            result, error, left = observe(op, root, before)
            s.trace()
            s.step()
            s.state((case["recipe"], op_kind, threads))
            if error is None and op_kind == "merge":
                s.violation("accepted", f"{case} threads={threads}: the merge succeeds")
            clean(root, before, s, f"{op_kind} of {case['recipe']}, threads={threads}: {error!r}", left)
            error = None
            good = merge_op(recipes(root)["two"], root, {"threads": threads})
            _, error2, _ = observe(good, root, before)
            if error2 is not None:
                s.violation("after", f"after {op_kind} of {case['recipe']}: a sound merge raises {error2!r}")
    s.sample(case)


PARTS = {"failures": enumerate_failures, "broken recipes": failing}


def run(ck):
    cases = []
    names = list(recipes(pathlib.Path("/nonexistent")))
    for name in names:
        for threads in (0, 2) if not ck.thorough else (0, 1, 2, None):
            for to in (None, "mapping", "file"):
                opts = {"threads": threads, "to": to}
                for kind in ("RuntimeError", "KeyboardInterrupt"):
                    if kind == "KeyboardInterrupt" and not ck.thorough and (to is None or threads == 0 and to == "file"):
                        continue
                    cases.append({"op": "merge", "recipe": name, "opts": opts, "fault": "call", "kind": kind})
                if to != "mapping":
                    for kind in ("EIO", "ENOSPC") if ck.thorough else ("EIO",):
                        cases.append({"op": "merge", "recipe": name, "opts": opts, "fault": "file operation", "kind": kind})
        for op in ("open", "convert"):
            for fault, kind in (("call", "RuntimeError"), ("call", "KeyboardInterrupt"), ("file operation", "EIO")):
                cases.append({"op": op, "recipe": name, "opts": {}, "fault": fault, "kind": kind})
        for extra in ({"omit_extra_keys": False}, {"check_mandatory_keys": False, "omit_ema": True}, {"check_finite": False}):
            cases.append({"op": "merge", "recipe": name, "opts": {"threads": 2, "to": None} | extra, "fault": "call", "kind": "RuntimeError"})
    ck.rule = "a distinct case is one failure point (the n-th call out of the library or the n-th file operation) of one operation on one recipe; open descriptors and live threads are read from the OS while the outcome is still held, and the same recipe is then run again"
    ck.bounds = {"recipes": names, "operations": list(OPS), "broken recipes": len(broken(pathlib.Path("/nonexistent")))}
    ck.cases("failures", enumerate_failures, cases, chunk=1)
    ck.cases("broken recipes", failing, [{"recipe": n} for n in broken(pathlib.Path("/nonexistent"))], chunk=1)
