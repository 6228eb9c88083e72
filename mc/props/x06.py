"""X06: rotation of one model onto another against the defining properties of orthogonal Procrustes, and its cache."""
import itertools
import math
import numpy as np
from ..env import *
from ..evalm import evaluate, tensors_over, config_of
from sd_mecha.extensions.builtin import merge_methods as builtin

F = torch.float64


def centred(x):
    x = x.reshape(x.shape[0], -1).numpy()
    return x - x.mean(0), x.mean(0)


def best(m):
    """The rotation that maximises tr(R^T m), with whether it is unique."""
    u, s, v = np.linalg.svd(m)
    return u @ v, s.sum(), s.min() > 1e-9


def proper(m):
    """The same among the rotations without a reflection."""
    u, s, v = np.linalg.svd(m)
    sign = np.sign(np.linalg.det(u) * np.linalg.det(v))
    d = np.ones(len(s))
    d[-1] = sign
    unique = len(s) > 1 and s[-2] + sign * s[-1] > 1e-9
    return (u * d) @ v, (s * d).sum(), unique


def power(r, t):
    """Principal power of a rotation, or None when half a turn makes it ambiguous."""
    w, q = np.linalg.eig(r.astype(complex))
    if np.any(abs(w + 1) < 1e-9):
        return None
    return (q @ np.diag(w ** t) @ np.linalg.inv(q)).real


def close(x, y, tol=1e-6):
    return np.allclose(x, y, rtol=tol, atol=tol)


def is_whole(t):
    """Whole up to the rounding of arithmetic with floats."""
    return math.isclose(t, round(t))


def judge(a, b, t, alpha, out):
    """None, or what is wrong with the rotation of a onto b."""
    if out.shape != a.shape:
        return f"shape {tuple(out.shape)}"
    if not out.isfinite().all():
        return "not finite"
    if t == 0 and alpha == 0:
        return None if torch.equal(out, a) else "is not the first model"
    if t == 1 and alpha == 1:
        return None if torch.equal(out, b) else "is not the second model"
    if torch.equal(a, b):
        return None if close(out.numpy(), a.numpy()) else "changes a model that is rotated onto itself"
    ac, am = centred(a)
    bc, bm = centred(b)
    oc, om = centred(out)
    if not close(om, (1 - t) * am + t * bm):
        return f"the centroid is {om.tolist()} instead of {((1 - t) * am + t * bm).tolist()}"
    m = ac.T @ bc
    whole = is_whole(t)
    r, top, unique = best(m) if whole else proper(m)
    if alpha == 0:
        if not close(oc @ oc.T, ac @ ac.T):
            return f"the centred neurons are not transformed orthogonally: {oc.tolist()} from {ac.tolist()}"
        if t == 1 and not close((oc * bc).sum(), top):
            return f"is not aligned as well as possible: {(oc * bc).sum()} instead of {top}"
        if t == 0 and not close(oc, ac):
            return "no alignment changes the relation of the neurons"
    elif t == 1:
        rest = oc - alpha * bc
        if not close(rest @ rest.T, (1 - alpha) ** 2 * (ac @ ac.T)) or not close((rest * bc).sum(), (1 - alpha) * top):
            return "is not between the aligned first model and the second"
    elif t == 0:
        rest = oc - (1 - alpha) * ac
        if not close(rest @ rest.T, alpha ** 2 * (bc @ bc.T)) or not close((rest * ac).sum(), alpha * best(m)[1]):
            return "is not between the first model and the second aligned to it"
    if unique:
        p = np.linalg.matrix_power(r, round(t)) if whole else power(r, t)
        if p is not None:
            want = ((1 - alpha) * ac + alpha * bc @ r.T) @ p
            if not close(oc, want, 1e-5):
                return f"the centred neurons are {oc.tolist()} instead of {want.tolist()}"
    return None


def small(case, s):
    """All pairs of small neuron matrices over an alphabet."""
    shape = tuple(case["shape"])
    every = tensors_over(case["alphabet"], shape)
    left = every[case["part"]::case["of"]]
    seconds = every[::case["stride"]]
    for t, alpha in itertools.product(case["ts"], case["alphas"]):
        rows = [(a, b) for a in left for b in seconds]
        outs = evaluate(builtin.rotate, "ww", [tuple(x.clone() for x in row) for row in rows], {"alignment": t, "alpha": alpha}, F)
        s.evaluations += len(rows)
        for (a, b), o in zip(rows, outs):
            s.trace()
            s.state((shape, a.tolist(), b.tolist(), t, alpha))
            bad = judge(a, b, t, alpha, o)
            if bad:
                s.violation("rotate", f"rotate(a, b, alignment={t}, alpha={alpha}) with a={a.tolist()}, b={b.tolist()}: {bad}")


def generic(i, shape, dtype=F):
    n = 1
    for x in shape:
        n *= x
    return torch.tensor([1.5 * math.sin(12.9898 * (m + 1) * (1 + i / 7) + 0.37 * m * m + i) for m in range(n)], dtype=F).reshape(shape).to(dtype)


GENERIC = [(3, 2), (4, 3), (3, 3), (2, 5), (5, 5), (6, 2), (4, 2, 1, 1), (2, 3, 2, 2), (3, 1, 2, 2), (4, 2, 3), (2, 16), (3, 40), (40, 3), (8, 8), (12, 12)]


def shapes(case, s):
    """Generic matrices and convolutions of several shapes, on the whole grid."""
    for shape in GENERIC:
        for i, j in ((0, 1), (1, 2), (2, 0)):
            a, b = generic(i, shape), generic(j, shape)
            flat = lambda x: x.reshape(x.shape[:2].numel(), -1) if x.dim() == 4 and x.shape[-2:].numel() != 1 else x.reshape(x.shape[0], -1)
            wide = flat(a).shape[0] + 10 < flat(a).shape[1]
            for t, alpha in itertools.product(case["ts"], case["alphas"]):
                if wide and is_whole(t) and not 0 <= round(t) <= 1:
                    continue
                o, = evaluate(builtin.rotate, "ww", [(a.clone(), b.clone())], {"alignment": t, "alpha": alpha}, F)
                s.trace()
                s.state((shape, i, j, t, alpha))
                if o.shape != a.shape:
                    s.violation("shape", f"rotate of {shape}: {tuple(o.shape)}")
                    continue
                bad = judge(flat(a), flat(b), t, alpha, flat(o))
                if bad:
                    s.violation("rotate", f"rotate({i}, {j}, alignment={t}, alpha={alpha}) of generic {shape}: {bad}")
    for shape in ((), (1,), (4,)):
        a, b = generic(0, shape), generic(1, shape)
        for t, alpha in itertools.product(case["ts"], case["alphas"]):
            o, = evaluate(builtin.rotate, "ww", [(a, b)], {"alignment": t, "alpha": alpha}, F)
            s.trace()
            want = b if (t, alpha) == (1, 1) else (1 - alpha) * a + alpha * b
            if not torch.allclose(o, want, rtol=1e-9, atol=1e-9):
                s.violation("vector", f"rotate of vectors {shape} with alignment={t}, alpha={alpha}: {o.tolist()} instead of {want.tolist()}")


def consistency(case, s):
    """Powers of the rotation compose: two halves make the whole, and so on."""
    for n in (2, 3, 4, 5):
        for i, j in itertools.permutations(range(5), 2):
            a, b = generic(i, (n + 2, n)), generic(j, (n + 2, n))
            ac, _ = centred(a)

            def transform(t):
                o, = evaluate(builtin.rotate, "ww", [(a.clone(), b.clone())], {"alignment": t, "alpha": 0.0}, F)
                return np.linalg.pinv(ac) @ centred(o)[0]
            ts = {t: transform(t) for t in (0.25, 0.5, 0.75, 1.25, 1.5, -0.5, 1, 2, 3, -1)}
            rels = {"half twice is the proper whole": (ts[0.5] @ ts[0.5], proper(ac.T @ centred(b)[0])[0]), "quarter": (ts[0.25] @ ts[0.25], ts[0.5]), "three quarters": (ts[0.25] @ ts[0.5], ts[0.75]),
                    "5/4": (ts[0.5] @ ts[0.75], ts[1.25]), "3/2": (ts[0.75] @ ts[0.75], ts[1.5]), "inverse half": (ts[-0.5] @ ts[0.5], np.eye(n)), "square": (ts[1] @ ts[1], ts[2]), "cube": (ts[1] @ ts[2], ts[3]), "inverse": (ts[1] @ ts[-1], np.eye(n))}
            for name, (x, y) in rels.items():
                s.trace()
                s.state((n, i, j, name))
                if not close(x, y, 1e-5):
                    s.violation("power", f"{name} of the rotation of generic {i} onto {j} ({n} dimensions): {x.tolist()} and {y.tolist()}")


STEPS = [(1.0, 0.0), (1.0, 0.5), (0.5, 0.0), (0.5, 0.5), (2.0, 0.0), (0.25, 0.0), (0.0, 0.5), (0.0, 0.0), (1.0, 1.0), (-1.0, 0.25), (1.5, 0.0)]
CACHED = {"k0": (3, 2), "k1": (5, 4), "k2": (4,), "k3": (2, 2, 2, 2), "k4": (2, 20), "k5": (3, 3), "k6": (3, 2), "k7": (3, 3), "k8": (3, 3), "k9": (5, 4), "k10": (2, 2, 2, 2)}


def cache(case, s):
    """All sequences of merges with one cache: each gives what it gives without."""
    c = config_of(list(CACHED.values()))
    names = list(c.keys())
    models = [{n: generic(i + 3 * j, sh) for j, (n, sh) in enumerate(zip(names, CACHED.values()))} for i in range(2)]

    def run(step, store, dtype, threads=0):
        t, alpha = step
        a, b = (sd_mecha.model({k: v.clone() for k, v in m.items()}, c) for m in models)
        torch.manual_seed(1)
        kw = {} if store is ... else {"cache": store}
        return sd_mecha.merge(sd_mecha.rotate(a, b, alignment=t, alpha=alpha, **kw), merge_dtype=dtype, output_dtype=None, threads=threads, tqdm=NoBar, strict_weight_space=False)

    plain = {(st, d): run(st, ..., d) for st in STEPS for d in (torch.float64, torch.float32)}
    for rest in itertools.product(range(len(STEPS)), repeat=case["depth"] - 1):
        seq = [STEPS[i] for i in (case["first"], *rest)]
        for dtypes, threads in (((torch.float64,) * 9, 0), ((torch.float32, torch.float64, torch.float32), 2)):
            store, used = {}, []
            for n, step in enumerate(seq):
                s.trace()
                s.state((tuple(seq[:n + 1]), threads, str(dtypes[n])))
                got = run(step, store, dtypes[n], threads)
                want = plain[step, dtypes[n]]
                for k in names:
                    err = float((got[k].double() - want[k].double()).abs().max())
                    # an empty cache changes nothing at all; a filled one has the precision of half floats
                    scale = float(want[k].abs().max()) + 1
                    wide = k == names[4]
                    if wide and float(step[0]).is_integer() and not 0 <= step[0] <= 1:
                        continue
                    if threads and want[k].numel() not in (6, 20, 4):
                        continue  # the rotation of fewer neurons than dimensions is not unique, another dtype can find another one
                    if err > ((0 if n == 0 else 2e-2 * scale) if not wide else (1e-4 if n == 0 else 2e-2) * scale):
                        s.violation("cache", f"merging {seq[:n + 1]} (alignment, alpha) with one cache: {tuple(want[k].shape)} is {got[k].reshape(-1)[:4].tolist()} in the last merge, {want[k].reshape(-1)[:4].tolist()} without a cache")
                        break
    s.sample({"first": STEPS[case["first"]], "depth": case["depth"]})


def nodes(case, s):
    """A cache belongs to the node it was given to: other nodes of the recipe, and merges of other recipes, do not see it."""
    shapes = [(3, 3), (4, 2), (3, 3), (4, 2)]
    c = config_of(shapes)
    names = list(c.keys())
    m = [{n: generic(i * 4 + j, sh) for j, (n, sh) in enumerate(zip(names, shapes))} for i in range(4)]
    M = lambda i: sd_mecha.model(m[i], c)

    def run(r, **kw):
        torch.manual_seed(1)
        return sd_mecha.merge(r, **{**dict(merge_dtype=F, output_dtype=None, threads=0, tqdm=NoBar, strict_weight_space=False), **kw})

    for t0, t1 in itertools.product((1.0, 0.5, 2.0), repeat=2):
        for caches in (("x", "y"), ("x", None), (None, "x")):
            stores = {"x": {}, "y": {}, None: None}
            make = lambda cs: sd_mecha.n_average(sd_mecha.rotate(M(0), M(1), alignment=t0, cache=cs[0]), sd_mecha.rotate(M(2), M(3), alignment=t1, cache=cs[1]))
            want = run(make((None, None)))
            recipe = make([stores[x] for x in caches])
            for n in range(3):
                s.trace()
                s.state((t0, t1, caches, n))
                got = run(recipe, threads=n)
                for k in names:
                    err = float((got[k] - want[k]).abs().max())
                    if err > (1e-12 if n == 0 else 2e-2 * (float(want[k].abs().max()) + 1)):
                        s.violation("node-cache", f"merge {n + 1} of two rotations ({t0}, {t1}) with the caches {caches}: {k} is {got[k].tolist()} instead of {want[k].tolist()}")
            for x, store in stores.items():
                if store is not None and x in caches and not store:
                    s.violation("node-cache", f"the cache {x} of {caches} is not filled")


PARTS = {"small": small, "shapes": shapes, "consistency": consistency, "cache": cache, "nodes": nodes}


def run(ck):
    T = ck.thorough
    ck.rule = "a case is one pair of neuron matrices with one alignment and alpha, judged by the defining properties of the rotation, or one sequence of merges sharing a cache"
    ck.assumptions = ["matrices wider than their rows by more than 10 use a randomised decomposition and are only judged for alignments 0 and 1", "a filled cache has the precision of half floats"]
    ts = [0, 1, 0.5, 2, 0.25, -1] + ([3, 1.5, -0.5, 0.75] if T else [])
    alphas = [0, 1, 0.5] + ([0.25, 2] if T else [])
    grid = {"ts": ts, "alphas": alphas}
    ck.bounds = {"matrices": "all 2x2 over 3 values, 3x2 and 2x3 over 2", "alignments": ts, "alphas": alphas, "merges with one cache": 3 if T else 2}
    cases = []
    for shape, alphabet, stride, of in (([2, 2], [-1.0, 0.0, 2.0], 1, 9), ([3, 2], [-1.0, 2.0], 1 if T else 3, 8), ([2, 3], [-1.0, 2.0], 1 if T else 3, 8), ([3, 3], [-1.0, 2.0], 5 if T else 17, 32)):
        if shape == [3, 3] and not T:
            grid_ = {"ts": ts[:3], "alphas": alphas[:1]}
        elif shape == [3, 3]:
            grid_ = {"ts": ts[:6], "alphas": alphas[:3]}
        elif shape != [2, 2] and not T:
            grid_ = {"ts": ts[:4], "alphas": alphas}
        else:
            grid_ = grid
        cases += [{"shape": shape, "alphabet": alphabet, "stride": stride, "part": p, "of": of, **grid_} for p in range(of)]
    if T:
        cases += [{"shape": [3, 2], "alphabet": [-1.0, 0.0, 2.0], "stride": 5, "part": p, "of": 32, "ts": ts[:6], "alphas": alphas[:2]} for p in range(32)]
    ck.cases("small", small, cases, chunk=1, limit=900)
    ck.cases("shapes", shapes, [{"ts": [t], "alphas": alphas} for t in ts], chunk=1, limit=900)
    near = [0.1 * 3 / 0.3, 0.3 / 0.1, 1.1 * 3 - 0.3, 0.7 + 0.2 + 0.1, 1 - 1e-12, -1 + 1e-12, -0.3 / 0.1, 4 - 1e-12, 1e-13, -1e-13]  # 3 and 1 and so on, as floats make them
    ck.cases("shapes", shapes, [{"ts": [t], "alphas": alphas} for t in near], chunk=1, limit=900)
    ck.cases("consistency", consistency, [{}], limit=900)
    ck.cases("cache", cache, [{"first": i, "depth": 3 if T else 2} for i in range(len(STEPS))], chunk=1, limit=900)
    ck.cases("nodes", nodes, [{}], limit=900)
