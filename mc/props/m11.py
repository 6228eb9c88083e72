"""M11: the buffers of a merge stay within the memory the user gives them."""
import itertools
from collections import defaultdict
from .. import fsfault
from ..env import *
from ..core import scratch

F32 = torch.float32


class Spy(fsfault.Layer):
    """Records where each raw read and write of a file happens and how large it is."""

    def __init__(self, root):
        super().__init__(root)
        self.reads, self.writes = defaultdict(list), defaultdict(list)

    def fault(self, kind, path, size):
        if kind in ("read", "write"):
            f = next((f for f in reversed(self.opened) if f._p == path and not f.closed), None)
            at = f.tell() if f is not None else 0
            getattr(self, kind + "s")[os.path.relpath(path, self.root)].append((at, size))
        return super().fault(kind, path, size)


def models(root, sizes, same_names=False):
    """One file per list of tensor sizes (in numbers of float32)."""
    out, limits = [], {}
    for i, ns in enumerate(sizes):
        data = {f"k{j}": torch.full((n,), float(i + j)) for j, n in enumerate(ns)}
        path = root / (f"d{i}/in.safetensors" if same_names else f"in{i}.safetensors")
        path.parent.mkdir(exist_ok=True)
        raw = write_safetensors(path, data)
        limits[str(path.relative_to(root))] = 8 + struct.unpack("<Q", raw[:8])[0]
        out.append(path)
    return out, limits


def node(p):
    return sd_mecha.model(p)


# shape -> (number of files, recipe over their paths)
SHAPES = {
    "one": (1, lambda p: node(p[0]) | node(p[0])),
    "scaled": (1, lambda p: sd_mecha.weighted_sum(node(p[0]), node(p[0]), 0.5)),
    "average of 2": (2, lambda p: sd_mecha.n_average(*map(node, p))),
    "average of 3": (3, lambda p: sd_mecha.n_average(*map(node, p))),
    "average of 4": (4, lambda p: sd_mecha.n_average(*map(node, p))),
    "fallback": (2, lambda p: node(p[0]) | node(p[1])),
    "nested": (3, lambda p: sd_mecha.weighted_sum(sd_mecha.n_average(node(p[0]), node(p[1])), node(p[2]) | node(p[0]), alpha=0.25)),
    "shared node": (2, lambda p: (lambda a: sd_mecha.n_average(a, node(p[1]), a, a))(node(p[0]))),
    "keyword": (2, lambda p: sd_mecha.weighted_sum(a=node(p[0]), b=node(p[1]), alpha=0.5)),
    "parameter": (3, lambda p: sd_mecha.weighted_sum(node(p[0]), node(p[1]), sd_mecha.model(p[2], merge_space="param"))),
    "by key": (3, lambda p: sd_mecha.n_average(sd_mecha.literal({f"k{j}": node(p[j]) for j in range(3)}), sd_mecha.literal({f"k{j}": node(p[j]) for j in range(3)}))),
    "by key, and a model": (4, lambda p: sd_mecha.weighted_sum(sd_mecha.literal({f"k{j}": node(p[j]) for j in range(3)}), node(p[3]), 0.5)),
    "fallback option": (2, lambda p: node(p[0])),
    "difference": (3, lambda p: node(p[0]) + (node(p[1]) - node(p[2]))),
}

def buffers(case, s):
    root = pathlib.Path(scratch()) / "m11"
    root.mkdir(exist_ok=True)
    n, build = SHAPES[case["shape"]]
    sizes = [case["sizes"][i % len(case["sizes"])] for i in range(n)]
    paths, start = models(root, sizes, case.get("same_names"))
    item = {"float32": 4, "float16": 2, "float64": 8}[case.get("out", "float32")]
    for total, threads, to_file in itertools.product(case["totals"], case["threads"], (False, True)):
        kw = dict(total_buffer_size=total, merge_dtype=F32, output_dtype=getattr(torch, case.get("out", "float32")), tqdm=NoBar)
        if threads is not ...:
            kw["threads"] = threads
        if case["shape"] == "fallback option":
            kw["fallback_model"] = node(paths[1])
        where = f"{case['shape']} of {'same-named ' if case.get('same_names') else ''}files with tensors of {sizes} floats, total_buffer_size={total}, threads={threads}{', to a file' if to_file else ''}"
        s.trace()
        s.state((case["shape"], total, str(threads), to_file, str(sizes), item))
        with Spy(root) as spy:
            sd_mecha.merge(build(paths), output=root / "out.safetensors" if to_file else None, strict_weight_space=False, **kw)
        files = n + to_file
        used, large, parts = 0, 0, []
        share = total // files
        for i, name in enumerate(start):
            data = [size for at, size in spy.reads[name] if at >= start[name]]
            s.step(len(data))
            biggest = max(sizes[i]) * 4
            got = max(data, default=0)
            parts.append((name, got))
            # a buffer that has to hold one tensor larger than the share of its file is as large as that tensor
            if got > biggest or got <= share:
                used += got
            else:
                used, large = used + got, large + got - share
        if to_file:
            raw = (root / "out.safetensors").read_bytes()
            begin = 8 + struct.unpack("<Q", raw[:8])[0]
            data = [size for at, size in spy.writes["out.safetensors"] if at >= begin]
            s.step(len(data))
            biggest = max(max(x) for x in sizes) * item
            # which worker wrote how much is not visible at the end, as the closing thread writes what is left: each may fill a buffer
            count = max(1, threads if threads not in (None, ...) else 1)
            got = max(data, default=0)
            parts.append(("out", got, count))
            if got > biggest or got <= share // count:
                used += got * count
            else:
                used, large = used + got * count, large + (got - share // count) * count
        s.cmax("total", used)
        if used - large > total:
            s.violation("budget", f"{where}: buffers of {parts} bytes")
    s.sample({"shape": case["shape"], "buffers": [list(map(str, x)) for x in parts], "total": total})


def held(case, s):
    """What the opened models of a recipe keep in memory while they are read key by key."""
    root = pathlib.Path(scratch()) / "m11h"
    root.mkdir(exist_ok=True)
    paths, start = models(root, case["sizes"])
    for size in case["buffers"]:
        for order in itertools.permutations(range(len(case["sizes"][0]))):
            nodes = [node(p) for p in paths]
            recipe = sd_mecha.n_average(*nodes)
            s.trace()
            s.state((str(case["sizes"]), size, order))
            with Spy(root) as spy, sd_mecha.open_input_dicts(recipe, (), size):
                for j in order:
                    for nd in nodes:
                        nd.state_dict[f"k{j}"]
                        s.step()
            for i, name in enumerate(start):
                got = max((n for at, n in spy.reads[name] if at >= start[name]), default=0)
                if got > max(size, max(case["sizes"][i]) * 4):
                    s.violation("reads", f"tensors of {case['sizes'][i]} floats, buffer {size}: {got} bytes read at once")


PARTS = {"buffers": buffers, "opened models": held}


def run(ck):
    even, mixed, big = [[40] * 5], [[1, 30, 2, 17, 0]], [[3, 200, 3, 1, 2]]
    totals = [0, 160, 321, 640, 1000, 1280, 2000] if not ck.thorough else sorted({*range(0, 400, 16), *range(400, 4000, 80), 159, 161, 479, 481, 799, 801})
    threads = [None, 0, 1, 3] if not ck.thorough else [..., None, 0, 1, 2, 3, 4, 5, 8]
    cases = [{"shape": sh, "sizes": sz, "totals": totals, "threads": threads, "out": o} for sh in SHAPES for sz, o in ((even, "float32"), (mixed, "float16"), (big, "float64"), (even, "float16")) + (((mixed, "float32"), (big, "float32"), (even, "float64")) if ck.thorough else ())]
    cases += [{"shape": sh, "sizes": even, "totals": totals[::2], "threads": [0, 2], "out": "float32", "same_names": True} for sh in SHAPES if SHAPES[sh][0] > 1]
    ck.rule = "a state is (recipe, file layout, total_buffer_size, threads, output); the sizes of the raw reads and writes of each file are added up over the files (and threads) and compared with the budget"
    ck.bounds = {"recipes": len(SHAPES), "budgets": totals, "threads": [str(t) for t in threads]}
    ck.cases("buffers", buffers, cases, chunk=1)
    cases = [{"sizes": sz, "buffers": b} for sz in ([[4, 4, 4, 4]], [[1, 9, 3, 0]], [[5, 5, 2, 8], [1, 1, 30, 1]]) for b in ([0, 1, 15, 16], [17, 31, 32, 33], [36, 48, 64, 100])]
    ck.cases("opened models", held, cases)
