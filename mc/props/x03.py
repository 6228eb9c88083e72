"""X03: averages, medians, TIES, dropout and model stock against their definitions, over all small operand tuples."""
import itertools
import math
import numpy as np
from ..env import *
from ..evalm import evaluate, pattern, tensors_over
from sd_mecha.extensions.builtin import merge_methods as builtin

F = torch.float64


def arrays(row):
    return [x.double().numpy() for x in row]


def trimmed(a, k):
    mags = np.sort(np.abs(a).ravel())
    limit = mags[max(int((1 - k) * a.size), 1) - 1]
    return np.where(np.abs(a) >= limit, a, 0.0)


def elected(deltas, by_sum):
    """The elements of each delta that agree with the elected sign, and how many agree."""
    d = np.stack(deltas)
    sign = np.sign(d.sum(0) if by_sum else np.sign(d).sum(0))
    agree = np.sign(d) == sign
    return d * agree, agree.sum(0)


def stock_t(ds, eps):
    """The factor of model stock along the last dimension; None where it is not defined."""
    n = len(ds)
    ds = [d.reshape(1) if d.ndim == 0 else d for d in ds]
    cs = []
    for x, y in zip(ds, ds[1:]):
        nx, ny = np.maximum(np.sqrt((x * x).sum(-1)), eps), np.maximum(np.sqrt((y * y).sum(-1)), eps)
        cs.append((x * y).sum(-1) / (nx * ny))
    c = np.mean(cs, axis=0)
    den = 1 + (n - 1) * c
    return np.where(np.abs(den) < 1e-6, np.nan, n * c / np.where(np.abs(den) < 1e-6, 1, den))[..., None]


def weiszfeld(ds, eps, maxiter, ftol):
    ds = np.stack(ds)
    m = ds.mean(0)
    dist = lambda p: np.sqrt(((ds - p) ** 2).reshape(len(ds), -1).sum(1))
    obj = dist(m).mean()
    for _ in range(maxiter):
        w = 1 / np.maximum(dist(m), eps)
        m = (ds * w.reshape(-1, *[1] * (ds.ndim - 1))).sum(0) / w.sum()
        new = dist(m).mean()
        if abs(obj - new) <= ftol * new:
            break
        obj = new
    return m


def ties(ds, k, by_sum, stock, median, cos_eps=1e-6, eps=1e-6, maxiter=100, ftol=1e-20):
    kept, count = elected([trimmed(d, k) for d in ds], by_sum)
    if median:
        return weiszfeld(list(kept), eps, maxiter, ftol)
    t = 1.0
    if stock:
        t = stock_t(list(kept), cos_eps)
        if ds[0].ndim == 0:
            t = t.reshape(())
    with np.errstate(all="ignore"):
        return np.where(count == 0, 0.0, kept.sum(0) * t / np.maximum(count, 1))


def same(got, want, tol):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    bad = ~(np.abs(got - want) <= tol * (1 + np.abs(want)))
    return not (bad & ~np.isnan(want)).any()


def rows_of(case):
    ts = tensors_over(case["alphabet"], tuple(case["shape"]))
    if case.get("pool"):
        ts = ts[::max(1, len(ts) // case["pool"])]
    j, J = case["slice"]
    return [r for i, r in enumerate(itertools.product(ts, repeat=case["n"])) if i % J == j]


def judge(s, name, case, row, got, want, tol, sig=None):
    s.trace()
    s.evaluations += 1
    s.state((name, tuple(str(x.tolist()) for x in row), str(case["params"]), case["dtype"]))
    if got.dtype != DT[case["dtype"]] or not same(got.double().numpy(), want, tol):
        s.violation(sig or name, f"{name}{[x.tolist() for x in row]} with {case['params']} in {case['dtype']} gives {got.tolist()}, expected {np.asarray(want).tolist()}")
        return False
    return True


def tol_of(case):
    return 1e-6 if case["dtype"] == "F64" else 1e-3


def consensus(case, s):
    """One method, one parameter setting, every tuple of small tensors; then every order of the operands."""
    name, p = case["name"], case["params"]
    rows = rows_of(case)
    dtype = DT[case["dtype"]]
    fn = getattr(builtin, name)
    results = evaluate(fn, {"n_average": "w", "geometric_median": "w"}.get(name, "d") * case["n"], rows, p, dtype)
    seen = {}
    for row, got in zip(rows, results):
        ds = arrays([x.to(dtype) for x in row])
        if name == "n_average":
            want = np.mean(np.stack(ds), axis=0)
        elif name == "geometric_median":
            want = weiszfeld(ds, p.get("eps", 1e-6), p.get("maxiter", 100), p.get("ftol", 1e-20))
        elif name == "model_stock":
            t = stock_t(ds, p.get("cos_eps", 1e-6))
            want = np.mean(np.stack(ds), axis=0) * (t.reshape(()) if ds[0].ndim == 0 else t)
        else:
            extended = name == "ties_sum_extended"
            q = {"k": p.get("k", 0.2 if extended else 1.0), "stock": p.get("apply_stock", False), "median": p.get("apply_median", False)}
            more = {k: p[k] for k in ("cos_eps", "eps", "maxiter", "ftol") if k in p}
            vote = p.get("vote_sgn", False)
            want = ties(ds, by_sum=not vote, **q, **more)  # documented: the sum of the deltas, or of their signs when voting
            other = ties(ds, by_sum=vote, **q, **more)
            if not same(got.double().numpy(), want, tol_of(case)) and same(got.double().numpy(), other, tol_of(case)):
                judge(s, name, case, row, got, want, tol_of(case), "ties-vote-sgn-inverted")
                s.count("elected the other way")
                seen[tuple(str(x.tolist()) for x in row)] = got
                continue
        judge(s, name, case, row, got, want, tol_of(case), None)
        seen[tuple(str(x.tolist()) for x in row)] = got
    if case["slice"][1] == 1 and not (case["n"] > 2 and (name == "model_stock" or p.get("apply_stock"))):  # model stock compares consecutive models
        for key, got in seen.items():
            first = seen.get(tuple(sorted(key)))
            if first is not None and key != tuple(sorted(key)) and not torch.allclose(got, first, rtol=tol_of(case), atol=tol_of(case), equal_nan=True):
                s.violation(f"{name}-order", f"{name} with {p}: {key} gives {got.tolist()}, sorted {first.tolist()}")
    s.sample({k: case[k] for k in ("name", "shape", "n", "params", "dtype")} | {"rows": len(rows)})


def optimal(case, s):
    """The geometric median minimises the sum of distances, also with duplicates and a point in the middle."""
    rows = rows_of(case)
    for row, got in zip(rows, evaluate(builtin.geometric_median, "w" * case["n"], rows, {}, F)):
        ds = np.stack(arrays(row))
        cost = lambda p: np.sqrt(((ds - p) ** 2).reshape(len(ds), -1).sum(1)).sum()
        best = min([cost(weiszfeld(list(ds), 1e-12, 2000, 0))] + [cost(d) for d in ds])
        s.trace()
        s.evaluations += 1
        s.state(("optimal", tuple(str(x.tolist()) for x in row)))
        if cost(got.numpy()) > best * 1.02 + 1e-5:
            s.violation("geometric_median-optimal", f"the median of {[x.tolist() for x in row]} is {got.tolist()}, at {cost(got.numpy())}; the minimum is {best}")
    s.sample({k: case[k] for k in ("shape", "n")} | {"rows": len(rows)})


def subsets(n):
    return [c for r in range(n + 1) for c in itertools.combinations(range(n), r)]


def dropout(case, s):
    """Each element is the mean of some of the models' elements, rescaled; reproducible from the seed alone."""
    n, p = case["n"], case["params"]
    prob, rescale, overlap = p.get("probability", 0.9), p.get("rescale", 1.0), p.get("overlap", 1.0)
    shape = tuple(case["shape"])
    size = math.prod(shape)
    row = tuple(torch.tensor([2.0 ** i * (1 + j % 3) * (-1) ** j for j in range(size)], dtype=F).reshape(shape) for i in range(n))
    dtype = DT[case["dtype"]]
    runs = []
    for again in range(3):
        np.random.seed(again)
        torch.manual_seed(again + 5)
        if again == 2:
            np.random.default_rng(3).random(100)
            torch.rand(7)
        runs.append(evaluate(builtin.dropout, "d" * n, [row, row[::-1]], p, dtype))
    s.trace(3)
    s.evaluations += size
    s.state((str(p), n, shape, case["dtype"]))
    if p.get("seed") is not None:
        for r in runs[1:]:
            if not all(torch.equal(x, y) for x, y in zip(r, runs[0])):
                s.violation("dropout-seed", f"dropout with {p} differs between runs")
    factor = 1.0 if prob == 1.0 else (1.0 - prob) ** rescale
    for r in runs:
        got = r[0].double().flatten().tolist()
        flat = [x.flatten().tolist() for x in row]
        sizes = []
        for e in range(size):
            ok = {c: (sum(flat[i][e] for i in c) / max(1, len(c)) / factor) for c in subsets(n)}
            match = [c for c, v in ok.items() if abs(v - got[e]) <= 1e-5 * (1 + abs(v))]
            if not match:
                s.violation("dropout-element", f"dropout with {p}: element {e} of {[x[e] for x in flat]} is {got[e]}, not the rescaled mean of some of them")
                return
            sizes.append({len(c) for c in match})
        if prob == 1.0 and any(got):
            s.violation("dropout-all", f"dropout with {p} keeps {got}")
        if prob == 0.0 and any(0 in z for z in sizes):
            s.violation("dropout-none", f"dropout with {p} drops elements")
        if prob == 0.0 and overlap == 1.0 and any(n not in z for z in sizes):
            s.violation("dropout-none", f"dropout with {p} drops elements of some models")
        if overlap in (0.0, 2.0) and p.get("overlap_emphasis", 0.0) == 0.0 and any(min(z) > 1 for z in sizes):
            s.violation("dropout-overlap", f"dropout with {p} keeps an element of several models")
        if size >= 2000:
            # how often each model's element is dropped: sharp enough to tell p from 1 - p
            none = sum(0 in z for z in sizes) / size
            expect = prob ** n if overlap == 1.0 else prob
            if abs(none - expect) > 0.06:
                s.violation("dropout-rate", f"dropout with {p} of {n} models drops {none:.3f} of the elements, expected {expect:.3f}")
    s.sample(case)


def dare(case, s):
    """TIES with dropout: the TIES merge of masked deltas, rescaled; reproducible from the seed alone."""
    n, p = case["n"], dict(case["params"])
    prob = p.get("probability", 0.9)
    shape = tuple(case["shape"])
    size = math.prod(shape)
    row = tuple(torch.tensor([(2.0 ** i + 0.25 * j) * (-1) ** (j + i // 2) for j in range(size)], dtype=F).reshape(shape) for i in range(n))
    dtype = DT[case["dtype"]]
    runs = []
    for again in range(3):
        torch.manual_seed(again + 5)
        runs.append(evaluate(builtin.ties_sum_with_dropout, "d" * n, [row], p, dtype)[0].double().numpy())
    s.trace(3)
    s.evaluations += 1
    s.state((str(p), n, shape, case["dtype"]))
    for r in runs[1:]:
        if p.get("seed") is not None and not np.array_equal(r, runs[0]):
            s.violation("dare-seed", f"ties_sum_with_dropout with {p} differs between runs")
    if p.get("apply_stock") and n < 2:
        return
    factor = 1.0 if p.get("no_rescale", False) else 1 - prob
    q = {"k": p.get("k", 0.2), "stock": p.get("apply_stock", False), "median": p.get("apply_median", False)}
    ds = arrays(row)
    for r in runs:
        if prob == 1.0:
            if r.any():
                s.violation("dare-all", f"ties_sum_with_dropout with {p} keeps {r.tolist()}")
            continue
        found = False
        masks = [np.ones(shape)] if prob == 0 or case["big"] else [np.array(m).reshape(shape) for m in itertools.product((0.0, 1.0), repeat=size)]
        if case["big"]:
            # too many masks to enumerate: element by element, without trimming
            ok = all(any(abs(w - r.flat[e]) < 1e-5 * (1 + abs(w)) for by in (True, False) for c in subsets(n)
                         for w in [float(ties([np.array(d.flat[e] if i in c else 0.0) for i, d in enumerate(ds)], 1.0, by, False, False)) / factor]) for e in range(size))
            if not ok:
                s.violation("dare-element", f"ties_sum_with_dropout with {p} gives elements that no mask explains")
            zero = float((r == 0).mean())
            if n == 1 and abs(zero - prob) > 0.06:
                s.violation("dare-rate", f"ties_sum_with_dropout with {p} drops {zero:.3f} of the elements")
            continue
        for ms in itertools.product(masks, repeat=n):
            for by in (p.get("vote_sgn", False), not p.get("vote_sgn", False)):  # see ties-vote-sgn-inverted
                w = ties([d * m for d, m in zip(ds, ms)], by_sum=by, **q) / factor
                if same(r, w, 1e-4):
                    found = True
                    break
            if found:
                break
        if not found:
            s.violation("dare", f"ties_sum_with_dropout of {[d.tolist() for d in ds]} with {p} gives {r.tolist()}: no choice of dropped elements explains it")
    s.sample(case)


def large(case, s):
    """Many models, many elements."""
    name, n, shape, dtype = case["name"], case["n"], tuple(case["shape"]), DT[case["dtype"]]
    fn = getattr(builtin, name)
    row = tuple(pattern(shape, i, case["ties"]).to(dtype).double() for i in range(n))
    ds = arrays(row)
    for p in case["settings"]:
        got, = evaluate(fn, {"n_average": "w", "geometric_median": "w"}.get(name, "d") * n, [row], p, dtype)
        s.trace()
        s.evaluations += math.prod(shape) * n
        s.state((name, str(p), n, shape, case["dtype"], case["ties"]))
        wants = []
        if name == "n_average":
            wants = [np.mean(np.stack(ds), axis=0)]
        elif name == "geometric_median":
            wants = [weiszfeld(ds, p.get("eps", 1e-6), p.get("maxiter", 100), p.get("ftol", 1e-20))]
        elif name == "model_stock":
            t = stock_t(ds, p.get("cos_eps", 1e-6))
            wants = [np.mean(np.stack(ds), axis=0) * (t.reshape(()) if ds[0].ndim == 0 else t)]
        else:
            q = {"k": p.get("k", 0.2 if name == "ties_sum_extended" else 1.0), "stock": p.get("apply_stock", False), "median": p.get("apply_median", False)}
            # which of the two elections is ties-vote-sgn-inverted, judged with small tensors
            wants = [ties(ds, by_sum=by, **q, **{k: p[k] for k in ("maxiter", "eps") if k in p}) for by in (not p.get("vote_sgn", False), p.get("vote_sgn", False))]
        # a sum can be zero up to rounding: the election of such an element is open
        open_ = np.zeros(shape, bool) if not name.startswith("ties") else np.abs(np.stack([trimmed(d, q["k"]) for d in ds]).sum(0)) < 1e-4
        if got.dtype == dtype and tuple(got.shape) == shape:
            g = got.double().numpy()
            if any((~(np.abs(g - w) <= case["tol"] * (1 + np.abs(w))) & ~np.isnan(w) & ~open_).sum() == 0 for w in wants):
                continue
            bad = [int((~(np.abs(g - w) <= case["tol"] * (1 + np.abs(w))) & ~np.isnan(w)).sum()) for w in wants]
        else:
            bad = f"{got.dtype} {tuple(got.shape)}"
        s.violation(f"{name}-large", f"{name} of {n} models of shape {shape} (ties: {case['ties']}, {case['dtype']}) with {p} differs in {bad} elements")
    s.sample(case)


def large_cases(T):
    out = []
    methods = {"n_average": [{}], "model_stock": [{}], "geometric_median": [{}, {"maxiter": 2}], "ties_sum": [{"k": 1.0}, {"k": 0.3, "vote_sgn": True}],
               "ties_sum_extended": [{}, {"k": 0.5, "vote_sgn": True}, {"k": 0.7, "apply_stock": True}]}
    for name, settings in methods.items():
        for n, shape in [(m, sh) for m in (1, 2, 4, 5, 7, 8, 9, 12, 17, 33) for sh in ([], [6], [3, 5])] + [(m, sh) for m in (2, 3, 5) for sh in ([257], [4097], [70001], [33, 65], [1, 300], [300, 1], [257, 258], [3, 5, 7, 2], *([[1025, 1030], [2 ** 20]] if T else []))]:
            if n == 1 and name == "model_stock":
                continue
            st = [p for p in settings if not (p.get("apply_stock") and n == 1)]
            for dt in ("F64", "F32"):
                for ti in (False, True):
                    # model stock divides by what can be nearly zero: in double precision only
                    use = [p for p in st if dt == "F64" or not (p.get("apply_stock") or name == "model_stock")]
                    out.append({"name": name, "n": n, "shape": shape, "settings": use, "dtype": dt, "ties": ti, "tol": 1e-6 if dt == "F64" else 2e-3})
    return out


PARTS = {"consensus": consensus, "optimal": optimal, "dropout": dropout, "dare": dare, "large": large}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one method and parameter setting applied to one tuple of small tensors through a merge, compared with its definition; randomised methods: one seed, every subset of kept elements is considered"
    ck.assumptions = ["iterative medians are compared within 1e-6", "randomised methods are enumerated over the listed seeds"]
    A, B = [-1, 0, 0.5, 2], [-1, 0, 2]
    cases = []

    def add(name, params, shape, alphabet, n, dtype="F64", pool=None, J=1):
        for j in range(J):
            cases.append({"name": name, "params": params, "shape": list(shape), "alphabet": alphabet, "n": n, "dtype": dtype, "pool": pool, "slice": [j, J]})
    shapes = lambda heavy: [((), A, 1, None), ((), A, 2, None), ((), A, 3, None), ((2,), A, 1, None), ((2,), A, 2, None), ((2,), A if not heavy else B, 3, 6 if heavy else None if T else 9),
                            ((2, 2), B, 2, 9 if heavy else 27 if not T else 81), ((2, 1, 3), B, 2, 8), ((), B, 4, None), ((1,), A, 2, None)] + ([((3,), A, 2, 40), ((2,), B, 4, 9)] if T else [])
    for sh, al, n, pool in shapes(False):
        add("n_average", {}, sh, al, n, pool=pool)
        add("n_average", {}, sh, al, n, "F32", pool=pool)
        if n > 1:
            add("model_stock", {}, sh, al, n, pool=pool)
            add("model_stock", {"cos_eps": 0.5}, sh, al, n, pool=pool)
        for vote in (False, True):
            for k in (1.0, 0.5, 0.2):
                add("ties_sum", {"k": k, "vote_sgn": vote}, sh, al, n, pool=pool)
                add("ties_sum_extended", {"k": k, "vote_sgn": vote}, sh, al, n, "F32" if k == 0.5 else "F64", pool=pool)
                if n > 1:
                    add("ties_sum_extended", {"k": k, "vote_sgn": vote, "apply_stock": True}, sh, al, n, pool=pool)
    for sh, al, n, pool in shapes(True):
        for p in ({}, {"maxiter": 0}, {"maxiter": 1}, {"maxiter": 3, "eps": 1e-2}, {"ftol": 1e-2}):
            small = pool if p else (min(pool, 5) if pool else None if n < 3 else 3)
            add("geometric_median", p, sh, al, n, pool=small)
        add("ties_sum_extended", {"k": 1.0, "apply_median": True, "maxiter": 5}, sh, al, n, pool=pool)
        add("ties_sum_extended", {"k": 0.5, "apply_median": True, "vote_sgn": True, "maxiter": 2, "eps": 0.1}, sh, al, n, pool=pool)
    add("ties_sum", {}, (2,), A, 2)
    add("ties_sum_extended", {}, (2,), A, 2)
    ck.bounds = {"models": [1, 4], "alphabets": [A, B], "shapes": sorted({str(c["shape"]) for c in cases})}
    ck.cases("consensus", consensus, cases, chunk=2, limit=600)
    ck.cases("optimal", optimal, [{"shape": list(sh), "alphabet": al, "n": n, "pool": pool, "slice": [0, 1]} for sh, al, n, pool in
                                  (((), A, 3, None), ((2,), B, 3, 5 if not T else 9), ((2,), B, 4, 3), ((2, 2), B, 3, 4 if not T else 9))], chunk=1, limit=600)
    drops = []
    for n in (1, 2, 3):
        for pr in (0.0, 0.3, 0.5, 0.9, 1.0):
            for seed in ((None, 0, 7) if not T else (None, *range(12))):
                for ov in (1.0, 0.0, 0.5, 2.0, 0.2, 1.4):
                    for extra in ({}, {"rescale": 0.0}, {"rescale": 0.5}, {"overlap_emphasis": 0.5}):
                        if extra.get("overlap_emphasis") and pr in (0.0, 1.0) and ov in (0.5,):
                            pass
                        drops.append({"n": n, "shape": [7], "dtype": "F64", "params": {"probability": pr, "seed": seed, "overlap": ov} | extra})
            for ov in (1.0, 0.0, 0.3):
                drops.append({"n": n, "shape": [2000], "dtype": "F32", "params": {"probability": pr, "seed": 3, "overlap": ov}})
    drops += [{"n": 2, "shape": sh, "dtype": "F64", "params": {"probability": 0.5, "seed": 1, "overlap": ov}} for sh in ([], [1], [2, 3], [2, 2, 2, 1]) for ov in (1.0, 0.0, 0.5)]
    ck.cases("dropout", dropout, drops, chunk=8)
    dares = []
    for n, sh in ((1, [3]), (2, [3]), (3, [2]), (2, [2, 2]), (2, [])):
        for pr in (0.0, 0.5, 0.9, 1.0):
            for seed in (None, 0, 7) if not T else (None, *range(8)):
                for extra in ({}, {"k": 1.0}, {"k": 0.5, "no_rescale": True}, {"k": 1.0, "vote_sgn": True}, {"k": 1.0, "apply_stock": True}, {"k": 1.0, "apply_median": True, "maxiter": 3}):
                    if n == 1 and extra.get("apply_stock") or n * math.prod(sh) > 6 and extra.get("apply_median"):
                        continue
                    if extra.get("maxiter"):
                        continue
                    dares.append({"n": n, "shape": sh, "dtype": "F64", "big": False, "params": {"probability": pr, "seed": seed} | extra})
    dares += [{"n": n, "shape": [2000], "dtype": "F64", "big": True, "params": {"probability": pr, "seed": sd, "k": 1.0, "no_rescale": nr}} for n in (1, 2) for pr in (0.1, 0.5, 0.9) for sd in (0, None) for nr in (False, True)]
    ck.cases("dare", dare, dares, chunk=4)
    ck.cases("large", large, large_cases(T), chunk=2, limit=600)
