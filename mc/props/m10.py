"""M10: merging streams, memory held does not grow with the number of keys."""
import gc
import sys
import threading
import tracemalloc
from .. import probes, sched, fsfault
from ..env import *
from ..core import scratch, forked
from ..probes import P, Rt, Tn, SD

PEAK = {"count": 0, "bytes": 0, "calls": 0, "on": False, "first": {}, "left": 0}
LOCK = threading.Lock()


def live():
    """Every tensor object made since gc.freeze()."""
    return [o for o in gc.get_objects() if type(o) is torch.Tensor and o.numel() > 1]  # not the scalars of a parameter given per key


def look(key):
    if not PEAK["on"]:
        return
    with LOCK:
        ts = live()
        PEAK["calls"] += 1
        PEAK["count"] = max(PEAK["count"], len(ts))
        PEAK["bytes"] = max(PEAK["bytes"], sum(t.numel() * t.element_size() for t in ts))
        if key is not None and key not in PEAK["first"]:  # what is still alive when a key starts
            PEAK["first"][key] = len(ts)


@sd_mecha.merge_method(identifier="mc_watch")
def mc_watch(a: P(Tn), **kwargs) -> Rt(Tn):
    look(kwargs["key"])
    return a + 1


@sd_mecha.merge_method(identifier="mc_watch_sd")
def mc_watch_sd(a: P(SD[Tn]), **kwargs) -> Rt(Tn):
    """Reads three keys through the state dict interface."""
    ks = sorted(a.keys())
    i = ks.index(kwargs["key"])
    out = None
    for j in range(3):
        v = a[ks[(i + j) % len(ks)]]
        out = v if out is None else out + v
        look(kwargs["key"])
    return out


def keys_of(n):
    return [f"k{i:03d}" for i in range(n)]


def config(n, numel):
    return model_configs.ModelConfigImpl(f"zzm-m{n}x{numel}", {"c": {k: {"shape": [numel], "dtype": "float32"} for k in keys_of(n)}, "ema": {}})


def setup(root, n, numel, lacks):
    """Three model files; model 1 lacks every key of the pattern."""
    for i in range(3):
        ks = [k for j, k in enumerate(keys_of(n)) if not (i == 1 and lacks and j % lacks == lacks - 1)]
        if i == 2:
            ks = ks + [f"extra{j:03d}" for j in range(n)]
        path = root / f"m10_{n}_{numel}_{lacks}_{i}.safetensors"
        if not path.exists():
            write_safetensors(path, {k: torch.full((numel,), float(i + 1) + j / 8) for j, k in enumerate(ks)})


def recipes(root, n, numel, lacks=0):
    c = config(n, numel)
    f = lambda i: sd_mecha.model(root / f"m10_{n}_{numel}_{lacks}_{i}.safetensors", c)
    w, ws = mc_watch, mc_watch_sd
    per_key = {k: 0.5 for k in keys_of(n)}
    shared = w(f(0))
    return {
        "one": lambda: w(f(0)),
        "chain": lambda: w(w(w(w(f(0))))),
        "average": lambda: w(sd_mecha.n_average(w(f(0)), w(f(1)), f(2))),
        "shared": lambda: w(sd_mecha.weighted_sum(shared, sd_mecha.n_average(shared, f(1)), alpha=0.25)),
        "parameter per key": lambda: w(sd_mecha.weighted_sum(f(0), f(1), alpha=sd_mecha.literal(per_key, c, "param"))),
        "state dict": lambda: ws(w(f(0))),
        "state dict of state dict": lambda: w(ws(ws(f(0)))),
        "add difference": lambda: w(sd_mecha.add_difference(w(f(0)), f(1), f(2), alpha=0.5)),
        "ties": lambda: w(sd_mecha.add_difference_ties(f(0), w(f(1)), f(2), k=0.5)),
        "fallback": lambda: w(w(f(1)) | w(f(0))),
        "per key": lambda: w(sd_mecha.literal({k: (w(f(0)) if j % 2 else w(f(2))) for j, k in enumerate(keys_of(n))}, c, "weight")),
        "rotate": lambda: w(sd_mecha.clamp(w(f(0)), f(1), f(2), stiffness=0.5)),
    }


def extra_options(name):
    return {"forwarded": {"omit_extra_keys": False}}.get(name, {})


class Sink(dict):
    """A mapping output that keeps nothing."""

    def __setitem__(self, k, v):
        pass


def tracer(frame, event, arg):
    """Look at every line of the project's own modules."""
    if f"{os.sep}sd_mecha{os.sep}" in frame.f_code.co_filename:
        if event == "line" and PEAK["calls"]:  # not while the inputs are being opened
            look(None)
        return tracer


def measure(case, n, everywhere=False):
    """Peak of the live tensors over every method call (or every line) of one merge of n keys."""
    root = pathlib.Path(scratch())
    setup(root, n, case["numel"], case["lacks"])
    recipe = recipes(root, n, case["numel"], case["lacks"])[case["recipe"]]()
    kw = dict(threads=case["threads"], total_buffer_size=case["buffer"], tqdm=NoBar, merge_dtype=DT.get(case["merge"]), output_dtype=torch.float16, **case["opts"])
    out = root / "m10_out.safetensors" if case["to"] == "file" else Sink()
    sd_mecha.merge(recipes(root, n, case["numel"], case["lacks"])[case["recipe"]](), output=out, **kw)  # warm: lazily made constants
    PEAK.update(count=0, bytes=0, calls=0, first={})
    gc.collect()
    gc.freeze()
    gc.disable()  # what only the cycle collector would release counts as held
    try:
        PEAK["on"] = True
        if everywhere:
            sys.settrace(tracer)
        sd_mecha.merge(recipe, output=out, **kw)
    finally:
        sys.settrace(None)
        PEAK["on"] = False
        left = len(live())
        gc.enable()
        gc.unfreeze()
    return PEAK["count"], PEAK["bytes"], PEAK["calls"], list(PEAK["first"].values()), left


def growth(case, s):
    sizes = case["sizes"]
    base = None
    got = {}
    for n in sizes:
        for _ in range(case.get("repeat", 1)):
            count, size, calls, first, left = measure(case, n)
            s.trace()
            s.step(calls)
            s.state((str(case), n))
            if calls == 0:
                return s.violation("unwatched", f"{case}: the methods were never called")
            got[n] = (count, size, max(first), left)
            if base is None:
                base = (count, size)
                if case["threads"] > 0:  # other threads can be anywhere: their peak over every line, and the temporaries of one expression
                    base = measure(dict(case, threads=0), n, True)[:2]
                    extra = 4 * max(1, base[1] // base[0])
                    base = ((base[0] + 4) * case["threads"], (base[1] + extra) * case["threads"])
            if count > base[0] or size > base[1]:
                s.violation("grows", f"{case}: with {n} keys, {count} tensors ({size} bytes) are alive at once; at most {base[0]} ({base[1]} bytes) expected, as with {sizes[0]} keys")
            if case["threads"] == 0 and "state dict" not in case["recipe"] and max(first) > first[0]:
                s.violation("not released", f"{case}: {max(first)} tensors are alive when a key starts ({n} keys), {first[0]} for the first key")
            if left > 0:
                s.violation("left", f"{case}: {left} tensors are alive after the merge")
    s.cmax("live_tensors", max(g[0] for g in got.values()))
    s.sample({k: case[k] for k in ("recipe", "threads", "to", "lacks")} | {"peak live tensors, bytes, at key start, left, per number of keys": got})


def traced(case, n):
    root = pathlib.Path(scratch())
    numel = case["numel"]
    setup(root, n, numel, case["lacks"])
    recipe = recipes(root, n, numel, case["lacks"])[case["recipe"]]()
    gc.collect()
    tracemalloc.start()
    try:
        sd_mecha.merge(recipe, threads=case["threads"], total_buffer_size=case["buffer"], tqdm=NoBar, merge_dtype=torch.float32, output_dtype=torch.float32, output=root / "m10_out.safetensors", **case["opts"])
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def buffers(case, s):
    """Peak of everything Python allocates (read and write buffers included) during a merge to a file."""
    small, big = case["sizes"]
    tensor = case["numel"] * 4
    forked(traced, case, 2)  # files made, modules warm
    a, b = forked(traced, case, small), forked(traced, case, big)
    s.trace(2)
    s.step(2)
    s.state(str(case))
    # other threads can be at their own peak, or not
    allowed = tensor * (1 if case["threads"] == 0 else 12) + (big - small) * 6000  # bookkeeping per key: names, metadata, futures
    if b - a > allowed:
        s.violation("buffers", f"{case}: {b} bytes are held at the peak with {big} keys, {a} with {small}: grows by more than one tensor ({tensor} bytes) and the bookkeeping")
    s.sample({"case": case, "peaks": [a, b]})


# ------------------------------------------------------------------ schedules
def schedules(case, s):
    root = pathlib.Path(scratch())
    sched.deinstrument()
    PEAK["on"] = False
    n = case["n"]
    seq = dict(case, threads=0, buffer=64, to="mapping", opts={}, lacks=0, numel=2, merge="F32")
    base = measure(seq, n, True)[0]
    setup(root, n, 2, 0)

    def body():
        recipe = recipes(root, n, 2, 0)[case["recipe"]]()
        PEAK.update(count=0, bytes=0, calls=0, first={})

        def run():
            gc.collect(0)
            gc.freeze()
            PEAK["on"] = True
            try:
                sd_mecha.merge(recipe, threads=case["threads"], total_buffer_size=64, merge_dtype=torch.float32, output_dtype=torch.float16, tqdm=NoBar, output=Sink())
            finally:
                PEAK["on"] = False
                gc.unfreeze()
            return PEAK["count"], PEAK["calls"]
        return run

    def verdict(res):
        if res.error is not None:
            return f"error-{type(res.error).__name__}", repr(res.error)
        count, calls = res.value
        s.state((case["recipe"], case["threads"], n, count))
        s.cmax("live_tensors", count)
        if calls == 0:
            return "unwatched", "the methods were never called"
        if count > base * case["threads"]:
            return "grows", f"{case}: {count} tensors are alive at once, at most {base} per thread expected"

    sched.instrument([merging])
    with fsfault.Layer(scratch()):
        if "schedule" in case:
            r = sched.execute(body(), [tuple(x) for x in case["schedule"]])
            bad = r.problem or verdict(r)
            if bad:
                s.violation(bad[0], bad[1])
            return
        s.count("schedules", sched.explore(body, verdict, s, case["bound"], case["slice"]))
    s.sample({k: case[k] for k in ("recipe", "threads", "n", "bound")})


PARTS = {"growth": growth, "buffers": buffers, "schedules": schedules}


def run(ck):
    names = list(recipes(pathlib.Path("/nonexistent"), 4, 2))
    sizes = [4, 8, 16] if not ck.thorough else [4, 8, 16, 32, 64, 128]
    cases = []
    for name in names:
        for threads in (0, 1, 2) if not ck.thorough else (0, 1, 2, 3, 4):
            for to in ("file", "mapping"):
                for lacks in (0, 2) if to == "file" or ck.thorough else (0,):
                    for merge, opts in (("F64", {}), (None, {"omit_extra_keys": False})):
                        for buffer in ((0, 2 ** 20) if ck.thorough else (0,)):
                            cases.append({"recipe": name, "threads": threads, "to": to, "lacks": lacks, "merge": merge, "opts": opts, "numel": 3, "sizes": sizes if threads == 0 else [4, 64], "buffer": buffer,
                                          "repeat": 3 if threads > 1 and ck.thorough else 1})
    ck.rule = "a case is one recipe with one number of threads, output and missing-key pattern, merged with growing numbers of keys; at every call of a watching method every live tensor object is counted (the cycle collector is off)"
    ck.bounds = {"recipes": names, "numbers of keys": sizes}
    ck.assumptions = ["live tensors are those reachable as Python objects; torch frees a tensor's memory with its last Python reference"]
    ck.cases("growth", growth, cases, chunk=1)
    # 32000 elements: torch does not start its own threads (it cannot in a forked process)
    big = [{"recipe": r, "threads": t, "lacks": la, "numel": 32000, "buffer": b, "sizes": [4, 24 if t == 0 else 48] if not ck.thorough else [4, 64], "opts": o}
           for r in ("one", "average", "fallback", "state dict") for t in (0, 2) for la in (0, 2) for b in (0, 2 ** 18) for o in ({}, {"omit_extra_keys": False})]
    ck.cases("buffers", buffers, big, chunk=1)
    confs = [("average", 2, 4, 1), ("one", 2, 5, 1), ("fallback", 3, 4, 0)] if not ck.thorough else [(r, t, 4, 1) for r in ("one", "average", "fallback", "state dict", "shared") for t in (1, 2, 3)] + [("one", 2, 3, 2)]
    J = 8 if not ck.thorough else 32
    ck.cases("schedules", schedules, [{"recipe": r, "threads": t, "n": n, "bound": b, "slice": [j, J]} for r, t, n, b in confs for j in range(J)], chunk=1, limit=900)
