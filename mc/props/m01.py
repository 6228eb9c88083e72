"""M01: a merge computes the recipe key by key, however it is executed."""
import itertools
from fractions import Fraction as F
from ..env import *
from ..core import h64, scratch
from .. import probes
from ..probes import Missing, values

KEYS = {"a": (3,), "b": (3,), "c": (3,)}
ORDER = sorted(KEYS)


def numel(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def model_data(i, lacks=None):
    return {k: (torch.arange(numel(sh), dtype=torch.float32) * (1 + 2 * i) + 4 * i - 3 + 64 * (i + 1) * j).reshape(sh) for j, (k, sh) in enumerate(KEYS.items()) if k != lacks}


CONFIG = "zzm-n"


def ensure_config():
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, {"c": {k: {"shape": list(sh), "dtype": "float32"} for k, sh in KEYS.items()}}))
    except ValueError:
        pass


# ------------------------------------------------------------------ programs
ALPHAS = [0.25, 0, 1, {"a": 0.5, "b": 0.25, "c": 2.0}, ("avg", 0.25, 0.75), True, 3]


def weight(depth, leaves):
    """All programs of weight space up to the depth, as tuples."""
    if depth == 0:
        return [("m", i) for i in range(leaves)]
    w, d = weight(depth - 1, leaves), delta(depth - 1, leaves)
    out = list(weight(0, leaves))
    small = w if depth == 1 else weight(1, leaves)
    out += [("avg", x, y) for x in w for y in small[:leaves + 2]]
    out += [("ws", x, y, j) for x in w for y in weight(0, leaves) for j in range(len(ALPHAS))]
    out += [("add", x, y) for x in w[:8] for y in d]
    out += [("next", x) for x in w] + [("total", x, y) for x in small[:4] for y in small[:4]] + [("fb", x, y) for x in w for y in weight(0, leaves)]
    out += [("lin", x, y, z) for x in w[:3] for y in w[:3] for z in w[:3]] + [("half", x) for x in w]
    return list(dict.fromkeys(out))


def delta(depth, leaves):
    if depth == 0:
        return []
    w = weight(depth - 1, leaves)
    out = [("sub", x, y) for x in w[:12] for y in w[:12]] + [("scale", d) for d in delta(depth - 1, leaves)]
    return list(dict.fromkeys(out))


def reference(prog, key, data):
    op = prog[0]
    if op == "m":
        if key not in data[prog[1]]:
            raise Missing(key)
        return values(data[prog[1]][key])
    if op == "fb":
        try:
            return reference(prog[1], key, data)
        except Missing:
            return reference(prog[2], key, data)
    if op == "next":
        return reference(prog[1], ORDER[(ORDER.index(key) + 1) % 3], data)
    if op == "total":
        t = sum(sum(reference(prog[1], k, data)) for k in ORDER)
        return [v + t for v in reference(prog[2], key, data)]
    if op == "ws":
        al = ALPHAS[prog[3]]
        al = F(al[key]) if isinstance(al, dict) else F(1, 2) if isinstance(al, tuple) else F(al)
        if al == 0:  # at the end points only the model that is taken is consulted
            return reference(prog[1], key, data)
        if al == 1:
            return reference(prog[2], key, data)
        x, y = reference(prog[1], key, data), reference(prog[2], key, data)
        return [p * (1 - al) + q * al for p, q in zip(x, y)]
    sub = [reference(p, key, data) for p in prog[1:]]
    if op == "avg":
        return [(p + q) / 2 for p, q in zip(*sub)]
    if op == "add":
        return [p + q for p, q in zip(*sub)]
    if op == "sub":
        return [p - q for p, q in zip(*sub)]
    if op == "scale":
        return [2 * p for p in sub[0]]
    if op == "half":
        return [p / 2 for p in sub[0]]
    if op == "lin":
        return [p + F(1, 2) * q + r for p, q, r in zip(*sub)]
    raise ValueError(op)


def build(prog, leaf, memo):
    if memo is not None and prog in memo:
        return memo[prog]
    op = prog[0]
    sub = lambda i: build(prog[i], leaf, memo)
    if op == "m":
        node = leaf(prog[1])
    elif op == "ws":
        al = ALPHAS[prog[3]]
        node = sd_mecha.weighted_sum(sub(1), sub(2), sd_mecha.n_average(*al[1:]) if isinstance(al, tuple) else al)
    elif op == "scale":
        node = probes.mc_scale(sub(1))
    elif op == "half":
        node = probes.mc_scale(sub(1), f=0.5)
    elif op == "lin":
        node = probes.mc_lin(sub(1), sub(2), sub(3))
    elif op == "add":
        node = sub(1) + sub(2)
    elif op == "sub":
        node = sub(1) - sub(2)
    elif op == "fb":
        node = sub(1) | sub(2)
    else:
        node = {"avg": sd_mecha.n_average, "next": probes.mc_next, "total": probes.mc_total}[op](*map(sub, range(1, len(prog))))
    if memo is not None:
        memo[prog] = node
    return node


def leaf_maker(kind, data, root, config):
    def leaf(i):
        k = ("memory", "file")[i % 2] if kind == "mixed" else kind
        if k == "memory":
            return sd_mecha.model(data[i], config)
        if k == "literal":
            return sd_mecha.literal(data[i], config, "weight")
        path = root / f"m01_{i}.safetensors"
        if k == "names":  # files of the same name in different directories; the middle one through a link
            path = root / f"m01_{'ab'[i // 2]}" / f"{i % 2}" / "m01.safetensors"
        return sd_mecha.model(path if k == "file" else str(path), config)
    return leaf


EXECUTIONS = list(itertools.product((0, 1, 2, None), ("memory", "file", "mixed", "names"), (0, 40, 2 ** 20), ("dict", "mapping", "file"), (True, False)))


class Log(dict):
    pass


def execute(prog, execution, data, root, config):
    threads, kind, buffer, output, shared = execution
    recipe = build(prog, leaf_maker(kind, data, root, config), {} if shared else None)
    kw = dict(threads=threads, total_buffer_size=buffer, merge_dtype=torch.float64, output_dtype=torch.float64, tqdm=NoBar)
    if output == "dict":
        return sd_mecha.merge(recipe, **kw)
    if output == "mapping":
        mine = Log()
        got = sd_mecha.merge(recipe, output=mine, **kw)
        return mine if got is mine else {"not the given mapping": torch.ones(1)}
    path = root / "m01_out.safetensors"
    got = sd_mecha.merge(recipe, output=path if kind != "mixed" else str(path), **kw)
    if got is not None:
        return {"a file merge returns something": torch.ones(1)}
    out, _ = parse_safetensors(path.read_bytes())
    return {k: (torch.frombuffer(bytearray.fromhex(v[2]), dtype=DT[v[0]]).reshape(v[1]) if v[2] else torch.empty(v[1], dtype=DT[v[0]])) for k, v in out.items()}


def judge(prog, got, data, s, where):
    want = {}
    for k in ORDER:
        try:
            want[k] = reference(prog, k, data)
        except Missing:
            pass
    if set(got) != set(want):
        return s.violation("keys", f"{where} {prog}: keys {sorted(got)} instead of {sorted(want)}")
    for k in want:
        s.step()
        if got[k].dtype != torch.float64 or tuple(got[k].shape) != KEYS[k] or values(got[k]) != want[k]:
            s.violation("value", f"{where} {prog}: {k} = {got[k].tolist()}, expected {[float(v) for v in want[k]]}")


def programs(case, s):
    root = pathlib.Path(scratch())
    config = None if case["lacks"] == "structural" else CONFIG
    ensure_config()
    data = [model_data(i, case["lacks"][i] if isinstance(case["lacks"], list) else None) for i in range(3)]
    for i, d in enumerate(data):
        write_safetensors(root / f"m01_{i}.safetensors", d)
        same = root / f"m01_{'ab'[i // 2]}" / f"{i % 2}" / "m01.safetensors"
        same.parent.mkdir(parents=True, exist_ok=True)
        same.unlink(missing_ok=True)
        if i == 1:
            same.symlink_to(root / f"m01_{i}.safetensors")
        else:
            write_safetensors(same, d)
    for n, prog in case["programs"]:
        prog = detuple(prog)
        s.state(prog)
        executions = EXECUTIONS if case["all"] else [EXECUTIONS[(n * 37 + j * 89) % len(EXECUTIONS)] for j in range(case["per"])]
        for e in executions:
            s.trace()
            try:
                got = execute(prog, e, data, root, config)
            except Exception as ex:
                s.violation(f"error-{type(ex).__name__}", f"{e} {prog}: {ex!r}")
                continue
            judge(prog, got, data, s, e)
    s.sample({"program": case["programs"][-1][1], "lacks": case["lacks"]})


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ the same, far from the small end
def mean(xs):
    return sum(xs[1:], xs[0]) / len(xs)


def large_recipe(kind, n, leaf):
    """(recipe, value as a function of (model, key)) of the given size."""
    if kind == "wide":
        ms = [leaf(i) for i in range(n)]
        return sd_mecha.n_average(*ms), lambda f, k: mean([f(i, k) for i in range(n)])
    if kind == "wide lin":
        ms = [leaf(i % 3) for i in range(n)]
        return probes.mc_lin(*ms), lambda f, k: f(0, k) + sum((0.5 * i * f(i % 3, k) for i in range(1, n)), 0 * f(0, k))
    if kind == "deep":
        node, fns = leaf(0), []
        for i in range(n):
            node = [lambda x: probes.mc_scale(x, f=0.5), lambda x, i=i: x + (leaf(i % 3) - leaf((i + 1) % 3)), lambda x, i=i: sd_mecha.weighted_sum(x, leaf((i + 2) % 3), alpha=0.25), lambda x: x | leaf(1)][i % 4](node)

        def value(f, k):
            v = f(0, k)
            for i in range(n):
                v = [lambda: v * 0.5, lambda: v + f(i % 3, k) - f((i + 1) % 3, k), lambda: 0.75 * v + 0.25 * f((i + 2) % 3, k), lambda: v][i % 4]()
            return v
        return node, value
    if kind == "ladder":  # every step uses the one before twice
        node = leaf(0)
        for i in range(n):
            node = sd_mecha.n_average(node, probes.mc_lin(leaf(1), node))

        def value(f, k):
            v = f(0, k)
            for i in range(n):
                v = (v + f(1, k) + 0.5 * v) / 2
            return v
        return node, value
    assert kind == "pairs"
    return sd_mecha.n_average(*(leaf(i) - leaf(i + 1) for i in range(n))), lambda f, k: mean([f(i, k) - f(i + 1, k) for i in range(n)])


def large(case, s):
    """Many keys, many operands, deep graphs, large tensors."""
    root = pathlib.Path(scratch())
    models, keys, shape = case["models"], case["keys"], case["shape"]
    # names of one component and of many, sorting unlike their order
    names = [f"block.{i % 7}.k{i}" if i % 3 else f"k{i}" for i in range(keys)]
    numel_ = numel(shape)

    def tensor(i, k):
        j = names.index(k)
        return ((torch.arange(numel_, dtype=torch.float64) % 509) * (i + 1) + 7 * i - 3 * j).reshape(shape)

    data = [{k: tensor(i, k).to(torch.float32) for k in names} for i in range(models)]
    for i, d in enumerate(data):
        write_safetensors(root / f"big_{i}.safetensors", d)
    for n in case["ns"]:
        for threads, kind, buffer, output in case["executions"]:
            leaf = lambda i: sd_mecha.model(root / f"big_{i}.safetensors" if kind == "file" or kind == "mixed" and i % 2 else data[i])
            recipe, value = large_recipe(case["kind"], n, leaf)
            kw = dict(threads=threads, total_buffer_size=buffer, merge_dtype=torch.float64, output_dtype=torch.float64, tqdm=NoBar, strict_weight_space=False)
            s.trace()
            s.state((case["kind"], n, keys, tuple(shape)))
            where = f"{case['kind']} of {n}, {keys} keys of {shape}, threads {threads}, {kind}, buffer {buffer}, to {output}"
            if output == "file":
                path = root / "big_out.safetensors"
                sd_mecha.merge(recipe, output=path, **kw)
                parsed, _ = parse_safetensors(path.read_bytes())
                got = {k: torch.frombuffer(bytearray.fromhex(v[2]), dtype=DT[v[0]]).reshape(v[1]) for k, v in parsed.items()}
            else:
                got = sd_mecha.merge(recipe, **kw)
            if set(got) != set(names):
                s.violation("large-keys", f"{where}: {len(got)} keys, missing {sorted(set(names) - set(got))[:5]}")
                continue
            for k in names:
                s.step()
                want = value(lambda i, k: data[i][k].to(torch.float64), k)
                if got[k].dtype != torch.float64 or got[k].shape != want.shape or not torch.allclose(got[k], want, rtol=1e-12, atol=1e-9):
                    bad = (got[k].shape == want.shape) and int(((got[k] - want).abs() > 1e-9).sum())
                    s.violation("large-value", f"{where}: {k} differs ({bad} elements)")
                    break


PARTS = {"programs": programs, "large": large}


def run(ck):
    one, two = weight(1, 3), weight(2, 2)
    lacks = [["b", None, None], [None, "b", "c"], ["a", "a", "a"]]
    cases = []
    # every program of depth 1 under every execution
    lst = list(enumerate(one))
    quick = lst[::2] if not ck.thorough else lst
    cases += [{"programs": quick[i:i + 2], "all": True, "lacks": None} for i in range(0, len(quick), 2)]
    cases += [{"programs": lst[i:i + 20], "all": False, "per": 6, "lacks": la} for la in ["structural"] + lacks for i in range(0, len(lst), 20)]
    deep = list(enumerate(two))
    if ck.thorough:
        deep = list(enumerate(weight(2, 3)))
    cases += [{"programs": deep[i:i + 25], "all": False, "per": 2, "lacks": None} for i in range(0, len(deep), 25)]
    if ck.thorough:
        cases += [{"programs": deep[i:i + 25], "all": False, "per": 1, "lacks": la} for la in lacks for i in range(0, len(deep), 25)]
    ck.rule = "a state is one recipe program; every key of its real merge is compared exactly (rational arithmetic) with the reference interpreter"
    ck.bounds = {"programs of depth 1": len(one), "programs of depth 2": len(two), "executions (threads, inputs, buffers, outputs, sharing)": len(EXECUTIONS),
                 "depth 2 run": len(deep)}
    ck.cases("programs", programs, cases, chunk=1)
    T = ck.thorough
    some = [(0, "memory", 2 ** 20, "dict"), (2, "file", 2 ** 12, "file"), (None, "mixed", 2 ** 28, "file"), (16, "file", 0, "dict")]
    cases = [{"kind": k, "ns": [n], "models": n + 1, "keys": 3, "shape": [3], "executions": some} for k in ("wide", "pairs") for n in ([4, 7, 8, 9, 16, 17, 33, 65] if T else [5, 9, 17, 33])]
    cases += [{"kind": k, "ns": ns, "models": 3, "keys": 2, "shape": [3], "executions": some} for k, ns in (("wide lin", [8, 40, 130]), ("deep", [5, 12, 30, 60]), ("ladder", [3, 6]))]
    cases += [{"kind": "deep", "ns": [3], "models": 3, "keys": n, "shape": [2], "executions": [e]} for n in ([10, 33, 65, 129, 300, 1025] if T else [33, 129, 300]) for e in some + [(8, "file", 2 ** 16, "file")]]
    cases += [{"kind": "deep", "ns": [3], "models": 3, "keys": 2, "shape": sh, "executions": [e]} for sh in ([300, 257], [70000], [3, 2, 5, 7], [2, 1, 1, 1, 1, 2], [1100, 1000]) for e in some]
    ck.cases("large", large, cases, chunk=1, limit=600)
