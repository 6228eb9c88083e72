"""X01: arithmetic and interpolation methods against their defining formulas, over all small operands."""
import cmath
import itertools
import math
import numpy as np
from .. import evalm
from ..env import *
from ..evalm import evaluate, PerKey, pattern, tensors_over

ELEMENTWISE, TENSORWISE = {}, {}


def ref(name, n, kind=None, params=("alpha",)):
    def deco(f):
        (kind if kind is not None else ELEMENTWISE)[name] = (f, n, params)
        return f
    return deco


# ---- element by element: plain Python floats; None = not specified for these operands
@ref("weighted_sum", 2)
def _(a, b, alpha):
    return (1 - alpha) * a + alpha * b


@ref("add_difference", 2)
def _(a, b, alpha):
    return a + alpha * b


@ref("subtract", 2, params=())
def _(a, b):
    return a - b


@ref("geometric_sum", 2)
def _(a, b, alpha):
    if a == 0 or b == 0:
        if alpha not in (0, 1):
            return 0.0 if 0 < alpha < 1 else None
        return a if alpha == 0 else b
    return (cmath.exp((1 - alpha) * cmath.log(complex(a, 0.0))) * cmath.exp(alpha * cmath.log(complex(b, 0.0)))).real


@ref("train_difference_mask", 3)
def _(a, b, c, alpha):
    d = abs(b - a) + abs(b - c)
    return alpha * 1.8 * (abs(b - a) / d if d else 0.0)


@ref("add_opposite_mask", 3)
def _(a, b, c, alpha):
    d = abs(a - b) + abs(a + b - 2 * c)
    return alpha * 2 * (abs(a - b) / d if d else 0.0)


@ref("add_strict_opposite_mask", 3)
def _(a, b, c, alpha):
    t = max(abs(a - c), abs(b - c))
    return alpha * 2 * max(0.0, (c - a) * (b - c) / t ** 2 if t else 0.0)


@ref("multiply_quotient", 3)
def _(a, b, c, alpha):
    if 0 in (a, b, c):
        return a
    p, q = math.log(abs(a)) - math.log(abs(c)), math.log(abs(b)) - math.log(abs(c))
    t = max(abs(p), abs(q))
    e = alpha * max(0.0, -p * q / t ** 2 if t else 0.0)
    return (a * cmath.exp(e * cmath.log(complex(b / c, 0.0)))).real


@ref("clamp", 3, params=("stiffness",))
def _(a, *bounds, stiffness):
    avg = sum(bounds) / len(bounds)
    lo, hi = min(bounds), max(bounds)
    lo = (1 - stiffness) * lo + stiffness * max(x for x in bounds if x <= avg)
    hi = (1 - stiffness) * hi + stiffness * min(x for x in bounds if x >= avg)
    return min(max(a, lo), hi)


# ---- whole tensors: numpy arrays; nan = not specified for this element
@ref("slerp", 2, TENSORWISE)
def _(a, b, alpha):
    na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
    if na == 0 or nb == 0:
        return (1 - alpha) * a + alpha * b
    u, v = a / na, b / nb
    w = 2 * math.atan2(np.sqrt(((u - v) ** 2).sum()), np.sqrt(((u + v) ** 2).sum()))
    if w < 1e-6:
        return (1 - alpha) * a + alpha * b
    if w > math.pi - 1e-6:
        return None  # opposite directions: no shortest arc
    r = (u * np.sin((1 - alpha) * w) + v * np.sin(alpha * w)) / math.sin(w)
    return r * ((1 - alpha) * na + alpha * nb)


@ref("perpendicular_component", 2, TENSORWISE, ())
def _(a, b):
    n = (a * a).sum()
    return b - a * ((a * b).sum() / n) if n else np.zeros_like(a)


def columns(a):
    return a.reshape(a.shape[0], -1) if a.ndim else a.reshape(1, 1)


def cosine(a, b):
    a, b = columns(a), columns(b)
    out = []
    for x, y in zip(a.T, b.T):
        n = math.sqrt((x * x).sum()) * math.sqrt((y * y).sum())
        out.append((x * y).sum() / n if n else 0.0)
    return np.array(out)


def by_similarity(a, b, alpha, sim):
    sim = sim.reshape(a.shape[1:]) if a.ndim else sim.reshape(())
    k = 1 - np.clip(sim - alpha, 0, 1)
    return (1 - k) * a + k * b


@ref("add_cosine_a", 2, TENSORWISE)
def _(a, b, alpha):
    return by_similarity(a, b, alpha, cosine(a, b))


@ref("add_cosine_b", 2, TENSORWISE)
def _(a, b, alpha):
    n = math.sqrt((a * a).sum()) * math.sqrt((b * b).sum())
    return by_similarity(a, b, alpha, (cosine(a, b) + ((a * b).sum() / n if n else 0.0)) / 2)


def choose(a, b, x, y):
    r = np.where(x > y, a, b)
    return np.where((np.abs(x - y) < 1e-9) & (a != b), np.nan, r)  # equal scores: rounding decides


def score(a, ddof):
    sd = a.std(ddof=ddof) if a.size > ddof else 0.0
    return (a - a.mean()) / sd if sd else np.zeros_like(a)


@ref("select_max_delta", 2, TENSORWISE)
def _(a, b, alpha):
    x, y = (1 - alpha) * np.abs(score(a, 1)), alpha * np.abs(score(b, 1))
    return np.where((x == 0) & (y == 0), a, choose(a, b, x, y))


@ref("select_max_white_delta", 2, TENSORWISE)
def _(a, b, alpha):
    p, q = score(a, 0), score(b, 0)
    r = (p * q).mean()  # the covariance matrix is [[va, r], [r, vb]] with unit or zero variances
    va, vb = float(p.any()), float(q.any())
    m = np.array([[va, r], [r, vb]])
    v, vs = np.linalg.eigh(m)
    inv = np.array([1 / math.sqrt(x) if x > max(v.max() * 1e-6, 1e-12) else 0.0 for x in v])
    w = vs @ np.diag(inv) @ vs.T
    pw, qw = w @ np.stack([p.ravel(), q.ravel()])
    x, y = (1 - alpha) * np.abs(pw).reshape(a.shape), alpha * np.abs(qw).reshape(a.shape)
    return choose(a, b, x, y)


@ref("crossover", 2, TENSORWISE, ("alpha", "tilt"))
def _(a, b, alpha, tilt):
    """Spectra of a and b blended by a ramp over the normalised frequency; tilt turns the ramp, alpha slides it."""
    if alpha == 0:
        return a
    if alpha == 1:
        return b
    if tilt % 4 == 1:
        return (1 - alpha) * a + alpha * b
    A, B = np.atleast_1d(a), np.atleast_1d(b)
    f = 0
    for d, n in enumerate(A.shape):
        k = np.abs(np.fft.fftfreq(n) * n)
        u = np.round(k) / (n // 2) if n > 1 else np.zeros(1)
        f = f + u.reshape([-1 if i == d else 1 for i in range(A.ndim)]) ** 2
    r = np.sqrt(f / A.ndim)
    t, al, flip = tilt % 4, alpha, False
    if t > 2:
        al, flip = 1 - alpha, True
    edge = np.abs(r - (1 - al)) < 1e-7
    if t == 0:
        filt = np.where(edge, np.nan, r > 1 - al)
    elif t == 2:
        filt = np.where(edge, np.nan, r < 1 - al)
    else:
        cot = math.cos(math.pi * t / 2) / math.sin(math.pi * t / 2)
        filt = np.clip((r - (1 - al)) * cot + al if t <= 1 or 2 < t <= 3 else (r - al) * cot + al, 0, 1)
    if flip:
        filt = 1 - filt
    if np.isnan(filt).any():
        return None  # a frequency exactly on the cut
    x = np.fft.ifftn((1 - filt) * np.fft.fftn(A) + filt * np.fft.fftn(B)).real
    return x.reshape(a.shape)


OPERANDS = {"add_difference": "wd", "select_max_delta": "dd", "select_max_white_delta": "dd", "perpendicular_component": "dd"}
EXACT = {("weighted_sum", 0): 0, ("weighted_sum", 1): 1, ("crossover", 0): 0, ("crossover", 1): 1}


def method(name):
    from sd_mecha.extensions.builtin import merge_methods as builtin
    return getattr(builtin, name)


def near(got, want, tol):
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        return False
    skip = np.isnan(want)
    return bool((skip | (np.abs(got - want) <= tol * (1 + np.abs(want)))).all())


def operands(case):
    alphabet, shape, n = case["alphabet"], tuple(case["shape"]), case["n"]
    ts = tensors_over(alphabet, shape)
    if case.get("pool"):
        ts = ts[::max(1, len(ts) // case["pool"])]
    rows = itertools.product(ts, repeat=n)
    j, J = case["slice"]
    return [r for i, r in enumerate(rows) if i % J == j]


def small(case, s):
    """Every tuple of small tensors, with one parameter setting."""
    name = case["name"]
    f, n, names = {**ELEMENTWISE, **TENSORWISE}[name]
    rows = operands(case)
    if not rows:
        return
    dtype = DT[case["dtype"]]
    tol = 1e-9 if dtype == torch.float64 else 2e-5
    if name in ("slerp", "select_max_white_delta", "crossover"):
        tol = 2e-6 if dtype == torch.float64 else 2e-4  # the filter of crossover is single precision
    params = dict(case["params"])
    how = case["how"]
    given = dict(params)
    if how == "key":
        given = {k: PerKey([v] * len(rows)) for k, v in params.items()}
    elif how == "mixed keys":  # each key its own value
        grid = case["grid"]
        given = {k: PerKey([grid[i % len(grid)] for i in range(len(rows))]) for k in params}
    elif how == "element":
        given = {k: PerKey([torch.full(tuple(case["shape"]), float(v), dtype=torch.float64) for _ in rows]) for k, v in params.items()}
    elif how == "elements":  # these values, element by element (also ones whose mean is an end point)
        given = {k: PerKey([torch.tensor([float(x) for x in case["grid"]], dtype=torch.float64).reshape(tuple(case["shape"])) for _ in rows]) for k in params}
    elif how == "mixed elements":
        grid = case["grid"]
        def spread(i):
            t = torch.tensor([float(grid[(i + j) % len(grid)]) for j in range(math.prod(case["shape"]))], dtype=torch.float64)
            return t.reshape(tuple(case["shape"]))
        given = {k: PerKey([spread(i) for i in range(len(rows))]) for k in params}
    results = evaluate(method(name), OPERANDS.get(name, "w" * n), rows, given, dtype)
    for i, (row, got) in enumerate(zip(rows, results)):
        s.trace()
        s.evaluations += 1
        if not isinstance(got, torch.Tensor) or tuple(got.shape) != tuple(case["shape"]) or got.dtype != dtype:
            s.violation(f"{name}-kind", f"{name}{[x.tolist() for x in row]} with {params} ({how}) gives {got!r}")
            continue
        ps = {}
        for k, v in params.items():
            g = given[k]
            v = g[i] if isinstance(g, PerKey) else v
            ps[k] = np.asarray(v, dtype=np.float64) if isinstance(v, torch.Tensor) else v
        arrays = [np.asarray(x.tolist(), dtype=np.float64).reshape(tuple(case["shape"])) for x in row]
        if name in ELEMENTWISE:
            flat = [x.ravel() for x in arrays]
            want = []
            for e in range(flat[0].size):
                at = {k: float(v.ravel()[e] if np.ndim(v) else v) for k, v in ps.items()}
                w = f(*[float(x[e]) for x in flat], **at)
                want.append(math.nan if w is None else w)
            want = np.array(want).reshape(tuple(case["shape"]))
        else:
            want = f(*arrays, **{k: (float(v) if np.ndim(v) == 0 else v) for k, v in ps.items()})
            if want is None:
                s.count("not specified")
                continue
        s.state((name, tuple(str(x.tolist()) for x in row), str(params), how, case["dtype"]))
        if not near(got, want, tol):
            s.violation(name, f"{name}{[x.tolist() for x in row]} with { {k: np.asarray(v).tolist() for k, v in ps.items()} } in {case['dtype']} gives {got.tolist()}, expected {np.asarray(want).tolist()}")
        # at the end of an interpolation the input itself comes back
        al = ps.get("alpha")
        if al is not None and np.ndim(al) == 0 and (name, al) in EXACT:
            if not torch.equal(got, row[EXACT[name, al]].to(dtype)):
                s.violation(f"{name}-end", f"{name}{[x.tolist() for x in row]} with alpha {al} gives {got.tolist()}, not the input")
    s.sample({k: case[k] for k in ("name", "shape", "params", "how", "dtype")} | {"rows": len(rows)})


INF = [float("inf"), float("-inf"), float("nan"), 0.0, 1.5]


def nonfinite(case, s):
    """Sums and differences follow IEEE arithmetic, and an end point does not look at the other input."""
    rows = [tuple(torch.tensor(x, dtype=torch.float64) for x in r) for r in itertools.product(INF, repeat=2)]
    for alpha in [None] if case["name"] == "subtract" else [0, 1, 0.5, -1, 2]:
        params = {} if alpha is None else {"alpha": alpha}
        results = evaluate(method(case["name"]), OPERANDS.get(case["name"], "ww"), rows, params)
        for (a, b), got in zip(rows, results):
            s.trace()
            s.evaluations += 1
            with np.errstate(all="ignore"):
                x, y = np.float64(a), np.float64(b)
                want = {"weighted_sum": lambda: x if alpha == 0 else y if alpha == 1 else (1 - alpha) * x + alpha * y,
                        "add_difference": lambda: x + alpha * y, "subtract": lambda: x - y}[case["name"]]()
            s.state((case["name"], str((a, b, alpha))))
            if not (np.isnan(want) and torch.isnan(got) or want == got.item()):
                s.violation(f"{case['name']}-nonfinite", f"{case['name']}({a}, {b}, alpha={alpha}) gives {got.item()}, expected {want}")
    s.sample(case)


def large(case, s):
    """The formulas on tensors of many elements, in one merge of many keys."""
    name, dtype = case["name"], DT[case["dtype"]]
    f, n, names = {**ELEMENTWISE, **TENSORWISE}[name]
    shapes = [tuple(x) for x in case["shapes"]]
    n = case.get("n", n)
    tol = 1e-8 if dtype == torch.float64 else 2e-4
    if name in ("slerp", "select_max_white_delta", "crossover"):
        tol = 1e-5 if dtype == torch.float64 else 1e-3
    rows = [tuple(pattern(sh, 10 * j + i, case["ties"]).to(dtype).double() for i in range(n)) for j, sh in enumerate(shapes)]
    for params in case["settings"]:
        given = {k: PerKey([v] * len(rows)) if case["how"] == "key" else v for k, v in params.items()}
        for row, got in zip(rows, evaluate(method(name), OPERANDS.get(name, "w" * n), rows, given, dtype, threads=case["threads"])):
            s.trace()
            s.evaluations += row[0].numel()
            s.state((name, str(params), tuple(row[0].shape), case["dtype"], case["ties"], n))
            arrays = [x.numpy() for x in row]
            if name in ELEMENTWISE:
                flat = [x.ravel().tolist() for x in arrays]
                want = np.array([math.nan if (w := f(*xs, **params)) is None else w for xs in zip(*flat)]).reshape(row[0].shape)
            else:
                want = f(*arrays, **params)
                if want is None:
                    s.count("not specified")
                    continue
            if got.dtype != dtype or not near(got, want, tol):
                if got.shape == want.shape:
                    bad = ~(np.abs(got.double().numpy() - want) <= tol * (1 + np.abs(want))) & ~np.isnan(want)
                    # a score or a bound can be tied up to rounding
                    if name in TENSORWISE and name.startswith("select") and bad.sum() <= max(1, bad.size * 1e-3):
                        continue
                    at = np.argwhere(bad)
                    what = f"{len(at)} elements, first at {at[:1].tolist()}: {got[tuple(at[0])].item()}, expected {want[tuple(at[0])]}"
                else:
                    what = f"shape {tuple(got.shape)}"
                s.violation(f"{name}-large", f"{name} of {n} tensors of shape {tuple(row[0].shape)} with {params} in {case['dtype']} differs: {what}")
    s.sample({k: case[k] for k in ("name", "dtype", "shapes", "settings")})


def large_cases(T):
    big = [[7], [65], [257], [1025], [4097], [70001]]
    wide = [[1, 70], [70, 1], [33, 65], [300, 7], [3, 5, 7, 2], [257, 258], [2, 1, 1, 1, 1, 3]]
    if T:
        big, wide = big + [[2 ** 18 + 1], [2 ** 20]], wide + [[1025, 1030], [40, 40, 3, 3]]
    cases = []
    for name, (f, n, names) in {**ELEMENTWISE, **TENSORWISE}.items():
        settings = [{"alpha": 0.3}, {"alpha": 1}, {"alpha": 0.75}] if "alpha" in names else [{}]
        if name == "crossover":
            settings = [{"alpha": 0.3, "tilt": 0.4}, {"alpha": 0.6, "tilt": 2.7}, {"alpha": 0.5, "tilt": 1}]
        if name == "clamp":
            settings = [{"stiffness": v} for v in (0.0, 0.4, 1.0)]
        for dt in ("F64", "F32"):
            for ties in (False, True):
                for how in ("number", "key"):
                    cases.append({"name": name, "shapes": big + wide, "settings": settings, "dtype": dt, "ties": ties, "how": how, "threads": 0 if how == "number" else 3})
        if name == "clamp":
            cases += [{"name": name, "shapes": [[], [5], [33, 7]], "settings": settings, "dtype": "F64", "ties": ties, "how": "number", "threads": 0, "n": m} for m in (2, 4, 5, 6, 8, 9, 17) for ties in (False, True)]
    return cases


PARTS = {"small": small, "nonfinite": nonfinite, "large": large}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one method applied to one tuple of small operand tensors with one parameter setting, through a merge; compared with scalar double-precision formulas"
    ck.assumptions = ["alphas within 1e-5 of an end point count as the end point", "scores that are equal up to rounding are not judged"]
    grid = [0, 0.25, 0.5, 1, -0.5, 1.5]
    cases = []

    def add(name, shape, alphabet, params, how, dtype="F64", pool=None, grid=grid, J=1):
        n = {**ELEMENTWISE, **TENSORWISE}[name][1]
        for j in range(J):
            cases.append({"name": name, "shape": list(shape), "alphabet": alphabet, "params": params, "how": how, "dtype": dtype, "pool": pool, "grid": grid, "n": n, "slice": [j, J]})
    A1, A2 = [-2, -1, 0, 0.25, 1, 3], [-1, 0, 0.5, 2]
    for name, (f, n, names) in ELEMENTWISE.items():
        settings = [{}] if not names else [{names[0]: v} for v in (grid if names[0] == "alpha" else [0.0, 0.5, 1.0])]
        for p in settings:
            add(name, (), A1, p, "number")
            add(name, (2,), A2 if n == 2 or T else [-1, 0, 2], p, "number", J=2)
            add(name, (), A1, p, "number", "F32")
            if names and names[0] == "alpha":
                add(name, (), A2, p, "key")
                add(name, (2,), [-1, 0, 2], p, "element")
        if names and names[0] == "alpha":
            add(name, (), A1, {"alpha": 0}, "mixed keys")
            add(name, (3,), [-1, 2], {"alpha": 0}, "mixed elements")
            add(name, (2, 2), [-1, 0.5, 2], {"alpha": 0}, "mixed elements", pool=16)
            for values in itertools.product([-1, 0, 1, 2], repeat=2):
                add(name, (2,), [-1, 2], {"alpha": 0}, "elements", grid=values)
    for name, (f, n, names) in TENSORWISE.items():
        if name == "crossover":
            settings = [{"alpha": al, "tilt": t} for al in (0, 0.3, 0.5, 0.9, 1) for t in (0.0, 0.4, 1, 1.5, 2, 2.7, 3.6, 4, -1.5)]
        else:
            settings = [{"alpha": v} for v in grid] if names else [{}]
        for p in settings:
            many = name == "crossover"
            add(name, (), A1, p, "number")
            add(name, (1,), A1, p, "number")
            add(name, (2,), A2, p, "number")
            add(name, (3,), A2, p, "number", pool=24 if many else 64, J=2)
            add(name, (2, 2), [-1, 0, 0.5, 2], p, "number", pool=16 if many else 40, J=2)
            add(name, (3, 4), [-1, 2], p, "number", pool=12)
            add(name, (2, 3, 2), [-1, 0.5], p, "number", pool=12)
            add(name, (3, 3, 1, 1), [-1, 0.5], p, "number", pool=12)
            add(name, (2,), A2, p, "number", "F32")
            if T:
                add(name, (5,), [-1, 0, 2], p, "number", pool=60, J=4)
                add(name, (4, 5), [-1, 2], p, "number", pool=40, J=4)
                add(name, (3,), A1, p, "number", pool=64 if many else 216, J=8)
                add(name, (2, 2), A2, p, "number", pool=64 if many else 256, J=16)
        if "alpha" in names and name != "crossover":
            add(name, (2,), A2, {"alpha": 0}, "mixed keys")
            add(name, (), A1, {"alpha": 0}, "mixed keys")
            if name != "slerp":
                add(name, (2, 2), [-1, 0, 0.5, 2], {"alpha": 0}, "mixed elements", pool=16)
    ck.bounds = {"alphabets": [A1, A2], "shapes": sorted({str(c["shape"]) for c in cases}), "alphas": grid}
    ck.cases("small", small, cases, chunk=4, limit=600)
    ck.cases("nonfinite", nonfinite, [{"name": n} for n in ("weighted_sum", "add_difference", "subtract")])
    ck.cases("large", large, large_cases(T), chunk=1, limit=600)
