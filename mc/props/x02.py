"""X02: region copies, top-k copies, TIES trimming and rank truncation select exactly the stated elements."""
import itertools
import math
import numpy as np
from ..env import *
from ..evalm import evaluate, PerKey, pattern, tensors_over
from sd_mecha.extensions.builtin import merge_methods as builtin

F = torch.float64


def borders(x):
    """The roundings of a border; a border halfway between two elements may go either way."""
    r = math.floor(x)
    f = x - r
    return {r, r + 1} if abs(f - 0.5) < 1e-9 else {r if f < 0.5 else r + 1}


def regions(width, offset, n):
    """Every acceptable set of indices taken from b: the circle of n elements, from offset on, for a width of it."""
    if width < 0:
        offset, width = offset + width, -width
    width = min(width, 1.0)
    offset = offset - math.floor(offset)
    if offset > 1 - 1e-12:
        offset = 0.0
    out = set()
    for lo in borders(offset * n):
        for hi in borders((offset + width) * n):
            out.add(frozenset(i % n for i in range(lo, min(max(hi, lo), lo + n))))
    if width == 1:
        out = {frozenset(range(n))}
    if width == 0:
        out = {frozenset()}
    return out


def region(case, s):
    """Region copies, through the method, the wrapper and the wrapper with a base."""
    ns, widths, offsets = case["ns"], case["widths"], case["offsets"]
    combos = [(n, w, o) for n in ns for w in widths for o in offsets]
    tail = tuple(case["tail"])
    rows, base = [], []
    for n, w, o in combos:
        k = n * math.prod(tail)
        a = torch.arange(k, dtype=F).reshape((n, *tail)) + 1
        rows.append((a, a + 1000))
        base.append((a, a + 1000, a / 2 - 7))
    W, O = PerKey([w for _, w, _ in combos]), PerKey([o for _, _, o in combos])
    dtype = DT[case["dtype"]]
    runs = {"method": (builtin.tensor_sum, "ww", rows), "copy_region": (sd_mecha.copy_region, "ww", rows),
            "copy_region with base": (sd_mecha.copy_region, "www", base)}
    for kind, (fn, spaces, rws) in runs.items():
        got = evaluate(fn, spaces, rws, {"width": W, "offset": O}, dtype)
        for (n, w, o), (a, b, *_), g in zip(combos, rws, got):
            s.trace()
            s.evaluations += 1
            s.state((n, w, o, str(tail), kind, case["dtype"]))
            ok = [torch.stack([(b if i in r else a)[i] for i in range(n)]) for r in regions(w, o, n)]
            if not any(torch.equal(g.double(), x) for x in ok):
                taken = [i for i in range(n) if torch.equal(g[i].double(), b[i])]
                s.violation(f"region-{kind}", f"{kind}: width {w} and offset {o} of {n} rows take rows {taken} from b, expected {sorted(map(sorted, regions(w, o, n)))}; result {g.flatten().tolist()[:24]}")
    s.sample({k: case[k] for k in ("ns", "tail", "dtype")} | {"combinations": len(combos)})


def fixed(case, s):
    """Width and offset given as plain numbers, and scalar tensors."""
    for w, o in case["settings"]:
        rows = [(torch.arange(n, dtype=F) + 1, torch.arange(n, dtype=F) + 101) for n in (1, 2, 5, 8)]
        for (a, b), g in zip(rows, evaluate(sd_mecha.tensor_sum, "ww", rows, {"width": w, "offset": o})):
            n = len(a)
            s.trace()
            s.state((w, o, n))
            if not any(torch.equal(g, torch.stack([(b if i in r else a)[i] for i in range(n)])) for r in regions(w, o, n)):
                s.violation("region-number", f"width {w}, offset {o}, {n} rows: {g.tolist()}")
        g, = evaluate(sd_mecha.tensor_sum, "ww", [(torch.tensor(1.0, dtype=F), torch.tensor(2.0, dtype=F))], {"width": w, "offset": o})
        if g.item() not in (1.0, 2.0) or abs(w) >= 1 and w > 0 and g.item() != 2.0 or w == 0 and g.item() != 1.0:
            s.violation("region-scalar", f"a scalar with width {w} gives {g.item()}")


def top_k(case, s):
    """Values of a in the order of b, for the stated fraction of a's magnitudes."""
    n = case["n"]
    ts = tensors_over(case["alphabet"], (n,))
    bs = [torch.tensor(p, dtype=F) for p in (case["bs"] or itertools.permutations(range(n)))]
    j, J = case["slice"]
    dtype = DT[case["dtype"]]
    for width, offset in case["settings"]:
        rows = [r for i, r in enumerate(itertools.product(ts, bs)) if i % J == j]
        fn = builtin.top_k_tensor_sum if case["how"] == "method" else lambda a, b, **k: sd_mecha.copy_region(a, b, top_k=True, **k)
        got = evaluate(fn, "ww", rows, {"width": width, "offset": offset}, dtype)
        for (a, b), g in zip(rows, got):
            a = a.to(dtype).double()
            s.trace()
            s.evaluations += 1
            s.state((tuple(a.tolist()), tuple(b.tolist()), width, offset, case["dtype"], case["how"]))
            dist = sorted(a.tolist())
            mags = sorted(abs(x) for x in dist)
            order = sorted(range(n), key=lambda i: (b[i].item(), i))
            rank = {i: r for r, i in enumerate(order)}
            allowed = []
            for take in selections(width, offset, mags, n):
                allowed.append([dist[rank[i]] if take(abs(dist[rank[i]])) else a[i].item() for i in range(n)])
            if g.tolist() not in allowed:
                s.violation("top_k", f"{case['how']}: a={a.tolist()} b={b.tolist()} width={width} offset={offset} ({case['dtype']}) gives {g.tolist()}, expected one of {allowed}")
    s.sample({k: case[k] for k in ("n", "alphabet", "settings", "dtype", "how")})


def selections(width, offset, mags, n):
    """The acceptable membership tests of a magnitude: those of rank above `lo` and up to `hi` (ties belong together)."""
    if width < 0:
        offset, width = offset + width, -width
    width = min(width, 1.0)
    offset -= math.floor(offset)
    at = lambda k: -1.0 if k <= 0 else mags[k - 1]
    if width + offset <= 1 + 1e-12:
        for lo in borders(offset * n):
            for hi in borders((width + offset) * n):
                yield lambda m, lo=lo, hi=hi: at(lo) < m <= at(min(hi, n))
    else:
        for lo in borders((width + offset - 1) * n):
            for hi in borders(offset * n):
                yield lambda m, lo=lo, hi=hi: not (at(lo) < m <= at(min(hi, n)))


def trim(case, s):
    """TIES trimming, seen through the merge of a single delta."""
    n, shape = case["n"], tuple(case["shape"])
    ts = tensors_over(case["alphabet"], shape)
    j, J = case["slice"]
    ts = ts[j::J]
    if case.get("every"):
        ts = ts[::case["every"]]
    dtype = DT[case["dtype"]]
    for ratio in case["ratios"]:
        for name, fn in (("ties_sum", builtin.ties_sum), ("ties_sum_extended", builtin.ties_sum_extended)):
            got = evaluate(fn, "d", [(t,) for t in ts], {"k": ratio}, dtype)
            for t, g in zip(ts, got):
                t = t.to(dtype)
                s.trace()
                s.evaluations += 1
                s.state((tuple(t.flatten().tolist()), ratio, name, case["dtype"]))
                mags = sorted(abs(x) for x in t.flatten().tolist())
                ok = []
                for rank in {int((1 - ratio) * n), int((1 - ratio) * n + 1e-9)}:
                    limit = mags[max(rank, 1) - 1]
                    ok.append([x if abs(x) >= limit else 0.0 for x in t.flatten().tolist()])
                if g.flatten().tolist() not in ok:
                    s.violation(f"trim-{name}", f"{name} of the single delta {t.tolist()} ({case['dtype']}) with k={ratio} gives {g.tolist()}, expected {ok}")
    s.sample({k: case[k] for k in ("shape", "alphabet", "ratios", "dtype")} | {"tensors": len(ts)})


def matrices(shape, kind):
    m, n = shape[0], math.prod(shape[1:])
    for rank in range(0, min(m, n) + 1):
        for salt in range(3):
            t = torch.zeros(m, n, dtype=F)
            for r in range(rank):
                u = torch.tensor([((i * (r + 2) + salt) * 7 % 11 - 5) / 4 + (i == r) for i in range(m)], dtype=F)
                v = torch.tensor([((i * (r + 3) + 2 * salt) * 5 % 13 - 6) / 4 + (i == r) for i in range(n)], dtype=F)
                t += torch.outer(u, v) * (3.0 ** -r if kind == "decaying" else 1.0)
            yield rank, t.reshape(shape)


def rank(case, s):
    shape = tuple(case["shape"])
    m, n = shape[0], math.prod(shape[1:])
    full = min(m, n)
    ts = list(matrices(shape, case["kind"]))
    dtype = DT[case["dtype"]]
    tol = 1e-8 if dtype == F else 2e-4
    for seed in case["seeds"]:
        for ratio in case["ratios"]:
            torch.manual_seed(seed)
            got = evaluate(builtin.truncate_rank, "d", [(t,) for _, t in ts], {"rank_ratio": ratio}, dtype)
            targets = {min(max(r, 1), full) for r in borders(full * ratio)}
            for (r, t), g in zip(ts, got):
                s.trace()
                s.evaluations += 1
                s.state((shape, ratio, seed, r, case["kind"], case["dtype"], tuple(t.flatten().tolist())[:3]))
                A = t.to(dtype).double().reshape(m, n).numpy()
                X = g.double().reshape(m, n).numpy() if tuple(g.shape) == shape else None
                if X is None:
                    s.violation("rank-shape", f"truncate_rank of shape {shape} gives {tuple(g.shape)}")
                    continue
                size = max(1.0, np.abs(A).max())
                sv = np.linalg.svd(A, compute_uv=False)
                k = max(targets)
                got_rank = int((np.linalg.svd(X, compute_uv=False) > tol * size * 10).sum())
                what = f"truncate_rank(ratio {ratio}, seed {seed}) of a {m}x{n} matrix of rank {int((sv > 1e-9 * size).sum())}"
                if got_rank > k:
                    s.violation("rank-high", f"{what} has rank {got_rank}, at most {k} expected")
                err, best = np.linalg.norm(A - X), math.sqrt((sv[k:] ** 2).sum())
                low = math.sqrt((sv[min(targets):] ** 2).sum())
                # the approximation is randomized: its error is a multiple of the best one (4.5 at most in 10^5 trials)
                if err > min(25 * low, np.linalg.norm(A)) + tol * size * 10:
                    s.violation("rank-far", f"{what} is {err} away, the best approximation {low}")
                if np.abs(X @ (A - X).T).max() > tol * size ** 2 * 100:
                    s.violation("rank-projection", f"{what} is not a projection: {np.abs(X @ (A - X).T).max()}")
                if targets == {full} and not torch.equal(g, t.to(dtype)):
                    s.violation("rank-full", f"{what} at full rank changes the tensor")
    s.sample({k: case[k] for k in ("shape", "ratios", "kind", "dtype")})


def flat(case, s):
    """Rank truncation leaves vectors and scalars alone."""
    rows = [(t,) for t in (torch.tensor(3.0, dtype=F), torch.tensor([1.0, 2.0], dtype=F), torch.zeros(1, dtype=F))]
    for ratio in (0.0, 0.5, 1.0):
        for (t,), g in zip(rows, evaluate(builtin.truncate_rank, "d", rows, {"rank_ratio": ratio})):
            s.trace()
            s.state((ratio, tuple(t.shape)))
            if not torch.equal(t, g):
                s.violation("rank-flat", f"truncate_rank({t.tolist()}, {ratio}) = {g.tolist()}")


def large(case, s):
    """Selections in tensors of many elements, with ties among the magnitudes or without."""
    shape, dtype = tuple(case["shape"]), DT[case["dtype"]]
    size = math.prod(shape)
    a, b = (pattern(shape, i, case["ties"]).to(dtype).double() for i in (0, 1))
    mags = np.sort(np.abs(a.numpy().ravel()))
    for ratio in (0.0, 0.1, 0.5, 0.99, 1.0):
        oks = [np.where(np.abs(a.numpy()) >= mags[max(r, 1) - 1], a.numpy(), 0.0) for r in {int((1 - ratio) * size), int((1 - ratio) * size + 1e-9)}]
        for name, fn in (("ties_sum", builtin.ties_sum), ("ties_sum_extended", builtin.ties_sum_extended)):
            g, = evaluate(fn, "d", [(a,)], {"k": ratio}, dtype)
            s.trace()
            s.evaluations += size
            s.state((shape, ratio, name, case["ties"], case["dtype"]))
            if not any(np.array_equal(g.double().numpy(), ok) for ok in oks):
                s.violation(f"trim-large-{name}", f"{name} of one delta of {shape} (ties: {case['ties']}, {case['dtype']}) with k={ratio} keeps {int((g != 0).sum())} elements, expected {[int((ok != 0).sum()) for ok in oks]}")
    n = shape[0]
    for w, o in ((0.3, 0.2), (0.5, 0.75), (1.0, 0.1), (-0.25, 0.1)):
        for fn, spaces, row in ((builtin.tensor_sum, "ww", (a, b)), (sd_mecha.copy_region, "ww", (a, b)), (sd_mecha.copy_region, "www", (a, b, a / 2))):
            g, = evaluate(fn, spaces, [row], {"width": w, "offset": o}, torch.float64)
            s.trace()
            s.state((shape, w, o, len(row)))
            taken = {i for i in range(n) if torch.equal(g[i], b[i])}
            if taken not in [set(r) for r in regions(w, o, n)] or any(not torch.equal(g[i], a[i]) for i in range(n) if i not in taken):
                s.violation("region-large", f"width {w} and offset {o} of {n} rows of {shape}: {len(taken)} rows of b")
    if not case["ties"]:
        flat, order = np.sort(a.numpy().ravel()), np.argsort(np.argsort(b.numpy().ravel(), kind="stable"), kind="stable")
        ranked = flat[order].reshape(shape)
        for w, o in ((1.0, 0.0), (0.3, 0.0), (0.25, 0.5), (0.5, 0.75)):
            g, = evaluate(builtin.top_k_tensor_sum, "ww", [(a, b)], {"width": w, "offset": o}, torch.float64)
            s.trace()
            s.state((shape, w, o, "top_k"))
            bests = []
            for take in selections(w, o, mags, size):
                bests.append(int((np.where([take(abs(x)) for x in ranked.ravel()], ranked.ravel(), a.numpy().ravel()) != g.numpy().ravel()).sum()))
            if not any(k == 0 for k in bests):
                s.violation("top_k-large", f"top_k of {shape} with width {w} and offset {o}: {min(bests)} elements differ")
    s.sample(case)


PARTS = {"region": region, "fixed": fixed, "top_k": top_k, "trim": trim, "rank": rank, "flat": flat, "large": large}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one tensor (pair) with one width and offset, ratio or rank, through a merge; compared with index sets and sorted magnitudes"
    ck.assumptions = ["a border exactly halfway between two elements may be rounded either way", "rank truncation is randomised: within a factor 2 of the best approximation, for the enumerated seeds"]
    ns = list(range(1, 13)) if not T else list(range(1, 34))
    widths = [0, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1, 1.5, -0.25, -0.5, -1, -0.7, -1.2]
    offsets = [0, 0.1, 0.25, 1 / 3, 0.5, 0.7, 0.9, 1, 1.25, 2.5, -0.1, -0.3, -0.5, -0.9, -1, -1.3, -2, -2.75]
    if T:
        widths, offsets = sorted({*widths, *(i / 20 for i in range(-24, 25))}), sorted({*offsets, *(i / 10 for i in range(-30, 31))})
    ck.bounds = {"rows": [1, ns[-1]], "widths": widths, "offsets": offsets}
    ck.cases("region", region, [{"ns": [n], "widths": widths, "offsets": offsets, "tail": t, "dtype": d} for n in ns for t, d in (((), "F64"), ((2,), "F32"), ((2, 1, 2), "F64"))], chunk=1, limit=600)
    ck.cases("fixed", fixed, [{"settings": [(w, o)]} for w in widths[:15] for o in offsets[:10]], chunk=8)
    tops = [(1.0, 0.0), (0.0, 0.0), (0.5, 0.0), (0.3, 0.0), (0.5, 0.5), (0.25, 0.25), (0.6, 0.7), (0.5, -0.25), (1.0, 0.4), (-0.5, 0.75), (1.3, 0.0)]
    ck.cases("top_k", top_k, [{"n": n, "alphabet": al, "bs": bs, "settings": [st], "dtype": d, "how": how, "slice": [0, 1]}
                              for n, al, bs in ((1, [-1, 2], None), (2, [-2, -1, 0, 1, 0.7], None), (3, [-1, 0, 0.3, 2] if not T else [-2, -1, 0, 0.3, 1, 2], None),
                                                (4, [-1, 0, 0.7, 1] if T else [-1, 0.7, 2], [(0, 0, 1, 1), (3, 1, 2, 0), (1, 3, 0, 2)]),
                                                (5, [-1, 0.7, 2], [(4, 2, 0, 1, 3), (0, 1, 2, 3, 4)]))
                              for st in tops for d in ("F64", "F32") for how in ("method", "wrapper")], chunk=1, limit=600)
    ratios = [0.0, 0.1, 0.2, 0.25, 0.5, 0.75, 0.9, 1.0]
    ck.cases("trim", trim, [{"n": math.prod(sh), "shape": list(sh), "alphabet": al, "ratios": [r], "dtype": d, "slice": [0, 1], "every": ev}
                            for sh, al, ev in (((1,), [-1, 0, 0.3], 0), ((2,), [-1, 0, 0.3, 0.7, 2], 0), ((3,), [-1, 0, 0.3, 0.7, 2], 0), ((2, 2), [-1, 0, 0.3, 0.7], 0), ((5,), [-0.7, 0, 0.3], 0),
                                               ((2, 5), [-0.7, 0, 0.3], 0 if T else 61), ((2, 1, 2, 2), [-0.7, 0, 0.3], 0 if T else 13))
                            for r in ratios for d in ("F64", "F32")], chunk=1, limit=600)
    shapes = [(2, 2), (3, 4), (4, 3), (2, 5), (5, 2), (4, 4), (3, 2, 2), (2, 2, 2, 2)] + ([(6, 6), (8, 5), (5, 9), (4, 3, 3, 3), (16, 12)] if T else [])
    ck.cases("rank", rank, [{"shape": list(sh), "ratios": [r], "kind": k, "dtype": d, "seeds": list(range(3 if not T else 10))}
                            for sh in shapes for r in (0.0, 0.25, 0.4, 0.5, 0.75, 1.0) for k in ("decaying", "even") for d in ("F64", "F32")], chunk=2)
    ck.cases("flat", flat, [{}])
    many = [(65,), (257,), (1025,), (33, 65), (70, 1), (7, 300), (70001,), (257, 258), (5, 3, 7, 11)] + ([(2 ** 18 + 1,), (1030, 1025)] if T else [])
    ck.cases("large", large, [{"shape": list(sh), "ties": ti, "dtype": d} for sh in many for ti in (False, True) for d in ("F64", "F32")], chunk=1, limit=600)
    ck.cases("rank", rank, [{"shape": list(sh), "ratios": [r], "kind": k, "dtype": "F64", "seeds": [0]} for sh in [(20, 33), (65, 12), (10, 3, 3, 3)] for r in (0.0, 0.3, 0.5, 0.9, 1.0) for k in ("decaying", "even")], chunk=2)
