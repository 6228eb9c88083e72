"""X05: every public method and wrapper end to end; wrappers against the composition they stand for."""
import inspect
import itertools
import pathlib
from .. import methods
from ..core import scratch
from ..env import *
from ..methods import E, CATALOGUE, CONFIG, SHAPES, data
from sd_mecha.extensions.builtin import merge_methods as builtin

OPTS = dict(threads=0, total_buffer_size=1 << 14, tqdm=NoBar, output_dtype=None, strict_weight_space=False)
FLOAT_ALPHA = ("crossover",)  # one number for the whole tensor
KINDS = ("generic", "equal", "zero", "small")


def tensors(kind, i, space, dtype):
    if kind == "zero":
        return {k: torch.zeros(sh, dtype=dtype) for k, sh in SHAPES.items()}
    d = data(0 if kind == "equal" else i, space, dtype, {"small": 1 / 1024}.get(kind, 1.0 if space == "w" else 0.25))
    return d


def leaf(kind, i, space, dtype, how="memory"):
    t = tensors(kind, i, space, dtype)
    if how == "memory":
        return sd_mecha.model(t, CONFIG, methods.SPACE[space])
    path = pathlib.Path(scratch()) / f"x05 {kind}{i}{space}.safetensors"
    write_safetensors(path, t)
    return sd_mecha.model(path, CONFIG, methods.SPACE[space])


def name_of(e, params):
    return f"{e.name}({e.operands}, {params})"


def wanted_keys(e):
    return set(SHAPES) if not e.name.startswith("omit") else set(SHAPES)


def runs(case, s):
    """One method with one set of parameters: finite values of the operands' shape, whatever the parameters' form."""
    methods.ensure_config()
    e, params = CATALOGUE[case["entry"]], case["params"]
    for dtype in (torch.float64, torch.float32):
        for kind in KINDS:
            what = f"{name_of(e, params)} of {kind} {dtype}"
            s.trace()
            s.state(what)
            results = {}
            forms = {"plain": params}
            tensor_params = {k: v for k, v in params.items() if k in ("alpha",) and v is not None}
            if tensor_params and not e.name.startswith(FLOAT_ALPHA):
                lit = lambda f: {**params, **{k: f(v) for k, v in tensor_params.items()}}
                forms["node"] = lit(lambda v: sd_mecha.literal(v))
                forms["per key"] = lit(lambda v: sd_mecha.literal({k: float(v) for k in SHAPES}, CONFIG, "param"))
                forms["per key or"] = lit(lambda v: sd_mecha.literal({k: float(v) for k in list(SHAPES)[::2]}, CONFIG, "param") | float(v))
                if e.name.split()[0] != "rotate":  # one weight for the whole tensor
                    forms["tensors"] = lit(lambda v: sd_mecha.literal({k: torch.full(sh, float(v), dtype=dtype) for k, sh in SHAPES.items()}, CONFIG, "param"))
            for form, ps in forms.items():
                leaves = [leaf(kind, i, sp, dtype) for i, sp in enumerate(e.operands)]
                try:
                    torch.manual_seed(11)
                    got = sd_mecha.merge(e.call(leaves, ps), merge_dtype=dtype, **OPTS)
                except Exception as ex:
                    s.violation("fails", f"{what}, parameters given as {form}: {ex!r}")
                    continue
                results[form] = got
                s.evaluations += len(got)
                if set(got) != wanted_keys(e):
                    s.violation("keys", f"{what}: keys {sorted(got)}")
                    continue
                for k, sh in SHAPES.items():
                    if tuple(got[k].shape) != sh:
                        s.violation("shape", f"{what}, parameters given as {form}: {k} has the shape {tuple(got[k].shape)} instead of {sh}")
                    elif not got[k].isfinite().all():
                        s.violation("not-finite", f"{what}, parameters given as {form}: {k} is {got[k].reshape(-1)[:4].tolist()}")
                    elif "dtype" not in params and got[k].dtype != dtype:
                        s.violation("dtype", f"{what}: {k} is {got[k].dtype}")
            if "plain" in results:
                for form, got in results.items():
                    for k in got:
                        if not e.random and not same(got[k], results["plain"][k], 1e-4 if dtype == torch.float32 else 1e-9):
                            s.violation("form", f"{what}: {k} depends on whether the parameters are given as {form} or plainly: {got[k].reshape(-1)[:4].tolist()} or {results['plain'][k].reshape(-1)[:4].tolist()}")
                            break
    s.sample({"method": e.name, "params": repr(params)})


def same(a, b, tol):
    if a.shape != b.shape:
        return False
    return torch.allclose(a.to(torch.float64), b.to(torch.float64), rtol=tol, atol=tol, equal_nan=True)


def unseeded(e, params):
    return e.random and params.get("seed") is None


def texts(case, s):
    """Recipes over files: the text of the recipe gives the same model."""
    methods.ensure_config()
    e, params = CATALOGUE[case["entry"]], {k: v for k, v in case["params"].items() if k != "cache"}
    what = name_of(e, params)
    s.trace()
    s.state(what)
    make = lambda: e.call([leaf("generic", i, sp, torch.float32, "file") for i, sp in enumerate(e.operands)], params)
    try:
        recipe = make()
        text = sd_mecha.serialize(recipe)
        back = sd_mecha.deserialize(text)
        if sd_mecha.serialize(back) != text:
            s.violation("text", f"{what}: {text!r} is read as {sd_mecha.serialize(back)!r}")
        torch.manual_seed(3)
        want = sd_mecha.merge(recipe, merge_dtype=torch.float64, **OPTS)
        torch.manual_seed(3)
        got = sd_mecha.merge(back, merge_dtype=torch.float64, **OPTS)
        if unseeded(e, params):
            got = want
    except Exception as ex:
        return s.violation("text", f"{what}: {ex!r}")
    for k in want:
        if k not in got or fingerprint(got[k]) != fingerprint(want[k]):
            s.violation("text", f"{what}: {k} differs when merged from its text")
            break
    # in a longer recipe, on several threads
    if not unseeded(e, params):
        try:
            twice = sd_mecha.merge(sd_mecha.n_average(recipe, make()), merge_dtype=torch.float64, **OPTS | {"threads": 2})
        except Exception as ex:
            return s.violation("nested", f"{what} inside of an average: {ex!r}")
        for k in want:
            if not same(twice[k], want[k], 1e-9):
                s.violation("nested", f"{what}: the average of two equal results is different for {k}")
                break


def defaults(case, s):
    """Giving the documented default of a parameter is the same as leaving it out."""
    methods.ensure_config()
    e = CATALOGUE[case["entry"]]
    leaves = lambda: [leaf("generic", i, sp, torch.float64) for i, sp in enumerate(e.operands)]

    seeded = {"seed": 7} if "seed" in e.params else {}

    def run(ps):
        torch.manual_seed(5)
        return sd_mecha.merge(e.call(leaves(), seeded | ps), merge_dtype=torch.float64, **OPTS)
    base = run({})
    for k, vs in e.params.items():
        if k != "seed" and not (e.name.startswith("cast") and k == "dtype"):
            s.trace()
            s.state((e.name, e.operands, k))
            try:
                got = run({k: vs[0]})
            except Exception as ex:
                s.violation("default", f"{e.name}({e.operands}): {k}={vs[0]!r}, its default, given explicitly: {ex!r}")
                continue
            for key in base:
                if fingerprint(got[key]) != fingerprint(base[key]):
                    s.violation("default", f"{e.name}({e.operands}): {k}={vs[0]!r} is not the same as leaving it out for {key}: {got[key].reshape(-1)[:4].tolist()} or {base[key].reshape(-1)[:4].tolist()}")
                    break


def ref(method, spaces, rows, params):
    """One method of the library on given tensors."""
    leaves = [sd_mecha.model(r, CONFIG, methods.SPACE[sp]) for r, sp in zip(rows, spaces)]
    return sd_mecha.merge(method(*leaves, **params), merge_dtype=torch.float64, **OPTS)


def sub(x, y):
    return {k: x[k] - y[k] for k in x}


def add(x, d, alpha=1.0):
    return {k: x[k] + alpha * d[k] for k in x}


def deltas(base, ms, spaces):
    return [sub(m, base) if sp == "w" else m for m, sp in zip(ms, spaces)]


def comp_add_difference(ts, sp, p):
    a, b, *c = ts
    d = sub(b, c[0]) if c else b
    res = add(a, d, p.get("alpha", 1.0))
    if p.get("clamp_to_ab"):
        res = {k: torch.minimum(torch.maximum(res[k], torch.minimum(a[k], b[k])), torch.maximum(a[k], b[k])) for k in res}
    return res


def comp_add_perpendicular(ts, sp, p):
    a, b, c = ts
    return add(a, ref(builtin.perpendicular_component, "dd", [sub(a, c), sub(b, c)], {}), p.get("alpha", 1.0))


def comp_ties(ts, sp, p):
    p = dict(p)
    alpha = p.pop("alpha", 1.0)
    return add(ts[0], ref(sd_mecha.ties_sum, "d" * 9, deltas(ts[0], ts[1:], sp[1:]), {"k": 1.0, "vote_sgn": False, **p}), alpha)


def comp_ties_extended(ts, sp, p):
    p = dict(p)
    alpha = p.pop("alpha", 1.0)
    full = {"k": 0.2, "vote_sgn": False, "apply_stock": False, "cos_eps": 1e-6, "apply_median": False, "eps": 1e-6, "maxiter": 100, "ftol": 1e-20, **p}
    return add(ts[0], ref(sd_mecha.ties_sum_extended, "d" * 9, deltas(ts[0], ts[1:], sp[1:]), full), alpha)


def comp_copy_region(ts, sp, p):
    p = dict(p)
    method = builtin.top_k_tensor_sum if p.pop("top_k", False) else builtin.tensor_sum
    p = {"width": 1.0, "offset": 0.0, **p}
    if len(ts) == 2:
        return ref(method, "ww", ts, p)
    a, b, c = ts
    return add(c, ref(method, "dd", [sub(a, c), sub(b, c)], p))


def comp_rotate(ts, sp, p):
    p = {"alignment": 1.0, "alpha": 0.0, **{k: v for k, v in p.items() if k != "cache"}}
    if len(ts) == 2:
        return ref(builtin.rotate, "ww", ts, p)
    a, b, c = ts
    return add(c, ref(builtin.rotate, "dd", [sub(a, c), sub(b, c)], p))


def comp_dropout(ts, sp, p):
    p = {"probability": 0.9, "overlap": 1.0, "overlap_emphasis": 0.0, "seed": 7, **p}
    alpha = p.pop("alpha", 0.5)
    return add(ts[0], ref(builtin.dropout, "d" * 9, [sub(m, ts[0]) for m in ts[1:]], p), alpha)


def comp_dare(ts, sp, p):
    p = dict(p)
    alpha = p.pop("alpha", 1.0)
    full = {"probability": 0.9, "no_rescale": not p.pop("rescale", True), "seed": 7, "k": 1.0, "vote_sgn": False, "apply_stock": False, "cos_eps": 1e-6, "apply_median": False, "eps": 1e-6, "maxiter": 100, "ftol": 1e-20, **p}
    return add(ts[0], ref(builtin.ties_sum_with_dropout, "d" * 9, deltas(ts[0], ts[1:], sp[1:]), full), alpha)


def comp_stock(ts, sp, p):
    return add(ts[0], ref(sd_mecha.model_stock, "d" * 9, deltas(ts[0], ts[1:], sp[1:]), {"cos_eps": 1e-6, **p}))


ALPHA = [1.0, 0.5, 0.0, 2, -1.0]
TIES = {"k": [1.0, 0.5, 0.2], "vote_sgn": [True, False], "apply_stock": [True, False], "apply_median": [True, False], "cos_eps": [1e-6, 1e-1], "eps": [1e-6, 1e-1], "maxiter": [100, 1, 0], "ftol": [1e-20, 1e-1]}
WRAPPERS = {
    "add_difference": (["wd", "www"], {"alpha": ALPHA, "clamp_to_ab": [False, True]}, comp_add_difference),
    "add_perpendicular": (["www"], {"alpha": ALPHA}, comp_add_perpendicular),
    "add_difference_ties": (["www", "wwd", "wdw", "wddd", "ww", "wd"], {"alpha": ALPHA, "k": TIES["k"]}, comp_ties),
    "add_difference_ties_extended": (["www", "wdw", "wddd", "wd"], {"alpha": ALPHA, **TIES}, comp_ties_extended),
    "copy_region": (["ww", "www", "dd"], {"width": [1.0, 0.5, 0.25, 0.0], "offset": [0.0, 0.25, 0.5, -0.3, 1.5], "top_k": [False, True]}, comp_copy_region),
    "tensor_sum": (["ww", "www"], {"width": [1.0, 0.5], "offset": [0.0, 0.5], "top_k": [False, True]}, comp_copy_region),
    "rotate": (["ww", "www", "dd"], {"alignment": [1.0, 0.0, 0.5, 2.0], "alpha": [0.0, 0.5, 1.0]}, comp_rotate),
    "dropout": (["ww", "www", "wwww"], {"probability": [0.9, 0.5, 0.0, 1.0], "alpha": [0.5, 1.0, 0.0], "overlap": [1.0, 0.0, 0.5], "overlap_emphasis": [0.0, 0.5], "seed": [7, 1]}, comp_dropout),
    "ties_with_dare": (["www", "wdw", "wdd"], {"probability": [0.9, 0.5, 0.0], "rescale": [True, False], "alpha": ALPHA, "seed": [7, 1], **TIES}, comp_dare),
    "n_model_stock": (["www", "wdw", "wddd", "wwww"], {"cos_eps": [1e-6, 1e-1, 0.5]}, comp_stock),
}


def all_params(params, deep):
    """All combinations of a small wrapper; for the long ones, every pair of parameters at every pair of values."""
    names = list(params)
    n = 1
    for vs in params.values():
        n *= len(vs)
    if n <= (3000 if deep else 60):
        for vs in itertools.product(*params.values()):
            yield dict(zip(names, vs))
        return
    done = set()
    for a, b in itertools.combinations(names, 2):
        for x, y in itertools.product(params[a], params[b]):
            for rest in (0, -1):
                p = {k: params[k][rest] for k in names if rest or k == "seed"} | {a: x, b: y}
                if repr(sorted(p.items())) not in done:
                    done.add(repr(sorted(p.items())))
                    yield p


def wrappers(case, s):
    methods.ensure_config()
    spaces, params, comp = WRAPPERS[case["name"]]
    wrapper = getattr(sd_mecha, case["name"])
    seeded = {"seed": 7} if "seed" in params else {}
    for p in all_params(params, case["deep"]):
        if case["spaces"] == "wd" and (p.get("clamp_to_ab") or p.get("apply_stock")):
            continue  # a weight and a delta have no common bounds; the angle between models needs two of them
        p = seeded | p
        for kind in ("generic", "small", "equal") if case["deep"] else ("generic",):
            ts = [tensors(kind, i, sp, torch.float64) for i, sp in enumerate(case["spaces"])]
            what = f"{case['name']}({case['spaces']}, {p}) of {kind}"
            s.state(what)
            s.trace()
            try:
                got = sd_mecha.merge(wrapper(*(sd_mecha.model(t, CONFIG, methods.SPACE[sp]) for t, sp in zip(ts, case["spaces"])), **p), merge_dtype=torch.float64, **OPTS)
                want = comp(ts, case["spaces"], p)
            except Exception as e:
                s.violation("wrapper-fails", f"{what}: {e!r}")
                continue
            for k in SHAPES:
                if k not in got or not same(got[k], want[k], 1e-7):
                    s.violation("composition", f"{what}: {k} is {got[k].reshape(-1)[:4].tolist()}, the composition gives {want[k].reshape(-1)[:4].tolist()}")
                    break


def special(case, s):
    """Relations between the methods at the values where one becomes another, and refusals."""
    methods.ensure_config()
    ws = [tensors("generic", i, "w", torch.float64) for i in range(4)]
    ds = [tensors("generic", i, "d", torch.float64) for i in range(4)]
    W = lambda i: sd_mecha.model(ws[i], CONFIG, "weight")
    D = lambda i: sd_mecha.model(ds[i], CONFIG, "delta")

    def run(r):
        return sd_mecha.merge(r, merge_dtype=torch.float64, **OPTS)

    pairs = {
        "ties_with_dare keeps everything with probability 0": lambda: (sd_mecha.ties_with_dare(W(0), W(1), W(2), probability=0.0, k=0.5, seed=3), sd_mecha.add_difference_ties_extended(W(0), W(1), W(2), k=0.5)),
        "ties_with_dare drops nothing, so nothing is rescaled": lambda: (sd_mecha.ties_with_dare(W(0), W(1), W(2), probability=0.0, rescale=False), sd_mecha.ties_with_dare(W(0), W(1), W(2), probability=0.0, rescale=True)),
        "add_difference_ties_extended with its extensions off": lambda: (sd_mecha.add_difference_ties_extended(W(0), W(1), W(2), k=0.5), sd_mecha.add_difference_ties(W(0), W(1), W(2), k=0.5)),
        "weights and their deltas": lambda: (sd_mecha.add_difference_ties(W(0), W(1), W(2), k=0.5), sd_mecha.add_difference_ties(W(0), W(1) - W(0), W(2) - W(0), k=0.5)),
        "weights and their deltas of a model stock": lambda: (sd_mecha.n_model_stock(W(0), W(1), W(2)), sd_mecha.n_model_stock(W(0), W(1) - W(0), W(2))),
        "weights and their deltas with dare": lambda: (sd_mecha.ties_with_dare(W(0), W(1), W(2), seed=3), sd_mecha.ties_with_dare(W(0), W(1) - W(0), W(2), seed=3)),
        "copy_region is tensor_sum": lambda: (sd_mecha.copy_region(W(0), W(1), width=0.5), sd_mecha.tensor_sum(W(0), W(1), width=0.5)),
        "dropout with no weight": lambda: (sd_mecha.dropout(W(0), W(1), W(2), alpha=0.0, seed=3), W(0)),
        "add_difference with no weight": lambda: (sd_mecha.add_difference(W(0), W(1), W(2), alpha=0.0), W(0)),
        "add_difference to the subtracted model": lambda: (sd_mecha.add_difference(W(0), W(1), W(0)), W(1)),
        "operators": lambda: (W(0) + (W(1) - W(2)), sd_mecha.add_difference(W(0), W(1), W(2))),
        "operator |": lambda: (W(0) | W(1), sd_mecha.fallback(W(0), W(1))),
        "cast to the dtype of another model": lambda: (sd_mecha.cast(W(0), dtype=sd_mecha.get_dtype(W(1)), device=sd_mecha.get_device(W(1))), W(0)),
        "to() of another node": lambda: (W(0).to(device=sd_mecha.get_device(W(1)), dtype=sd_mecha.get_dtype(W(1))), W(0)),
        "the delta a clamped sum ignores": lambda: (sd_mecha.clamp(W(0), W(0), W(1)), W(0)),
    }
    for name, make in pairs.items():
        s.state(name)
        s.trace()
        try:
            left, right = (run(x) for x in make())
        except Exception as e:
            s.violation("relation", f"{name}: {e!r}")
            continue
        if any(not same(left[k], right[k], 1e-9) for k in SHAPES):
            bad = next(k for k in SHAPES if not same(left[k], right[k], 1e-9))
            s.violation("relation", f"{name}: {bad} {left[bad].reshape(-1)[:4].tolist()} and {right[bad].reshape(-1)[:4].tolist()}")
    refused = {
        "clamp_to_ab between a weight and a delta": lambda: sd_mecha.add_difference(W(0), D(1), clamp_to_ab=True),
        "subtract a delta from a weight": lambda: W(0) - D(1),
        "add two weights": lambda: sd_mecha.add_difference(W(0), W(1)),
        "unknown parameter": lambda: sd_mecha.weighted_sum(W(0), W(1), beta=0.5),
        "one operand too many": lambda: sd_mecha.weighted_sum(W(0), W(1), 0.5, 0.5),
        "one operand too few": lambda: sd_mecha.subtract(W(0)),
        "ties of weights": lambda: sd_mecha.ties_sum(W(0), W(1)),
    }
    for name, make in refused.items():
        s.state(name)
        s.trace()
        try:
            got = run(make())
        except Exception:
            continue
        s.violation("accepted", f"{name} is accepted and gives {list(got.items())[:1]}")


def registry(case, s):
    """Every registered method outside of conversions is in the catalogue, so that the parts above cover all of them."""
    known = {getattr(e.resolve(), "identifier", None) for e in CATALOGUE} | {"get_dtype", "get_device", "fallback", "pick_component", "omit_component"}
    converters = {m.identifier for m in merge_methods.get_all_converters()}
    every = {m.identifier for m in merge_methods.get_all()}
    left = sorted(m for m in every - known - converters if not m.startswith("mc_") and not m.startswith("r01"))
    s.state(tuple(sorted(every)))
    s.trace()
    s.sample({"registered": len(every), "conversions": len(converters), "not in the catalogue": left})
    for m in left:
        s.count(f"not in the catalogue: {m}")


PARTS = {"runs": runs, "texts": texts, "defaults": defaults, "wrappers": wrappers, "special": special, "registry": registry}


def run(ck):
    T = ck.thorough
    methods.ensure_config()
    ck.rule = "a case is one method or wrapper with one set of parameters, run through the real merge on every rank; wrappers are compared with the composition evaluated step by step"
    ck.assumptions = ["operands are finite; values beyond the documented range of a parameter are not claimed"]
    ck.bounds = {"methods and wrappers": len(CATALOGUE), "ranks": "0-4", "parameters changed at once": 2 if not T else "all or 2"}
    variants = [(i, p) for i, e in enumerate(CATALOGUE) for p in e.variants()]
    ck.cases("runs", runs, [{"entry": i, "params": p} for i, p in variants], chunk=4, limit=600)
    ck.cases("texts", texts, [{"entry": i, "params": p} for i, p in variants], chunk=4, limit=600)
    ck.cases("defaults", defaults, [{"entry": i} for i in range(len(CATALOGUE))], chunk=2, limit=600)
    ck.cases("wrappers", wrappers, [{"name": n, "spaces": sp, "deep": T} for n, (sps, _, _) in WRAPPERS.items() for sp in sps], chunk=1, limit=900)
    ck.cases("special", special, [{}])
    ck.cases("registry", registry, [{}])
