"""C02: convert composes a shortest chain of registered conversions, or raises ValueError and changes nothing."""
import itertools
from ..env import *
from ..core import h64, scratch, forked, Shard
from .c04 import affinities

P, Rt, Tn, SD = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor, sd_mecha.StateDict


TAG = [""]  # distinguishes the configs of the graphs that share a process


def name(i):
    return f"zz{TAG[0]}{'abcdef'[i]}-n"


def pre(i):
    return f"g{TAG[0]}n{i}"


def register(n, edges):
    """Synthetic configs (disjoint keys) and conversions, registered in the given order."""
    for i in range(n):
        model_configs.register(model_configs.ModelConfigImpl(name(i), {"c": {f"{pre(i)}.k{j}": {"shape": [2], "dtype": "float64"} for j in range(12)}}))
    for number, (i, j) in enumerate(edges):
        def make(i, j, number, prefix):
            def conversion(src: P(SD[Tn], model_config=name(i)), **kwargs) -> Rt(Tn, model_config=name(j)):
                return src[prefix + "." + kwargs["key"].split(".")[1]] * 2 + (number + 1)
            return conversion
        sd_mecha.merge_method(make(i, j, number, pre(i)), identifier=f"zz{TAG[0]}_{number}", is_conversion=True)


def distances(n, edges, start):
    dist, todo = {start: 0}, [start]
    while todo:
        v = todo.pop(0)
        for a, b in edges:
            if a == v and b not in dist:
                dist[b] = dist[v] + 1
                todo.append(b)
    return dist


def data(i):
    return {f"{pre(i)}.k{j}": torch.tensor([j, j + 0.5], dtype=torch.float64) for j in range(12)}


def sources(i, root):
    path = root / f"{pre(i)}.safetensors"
    if not path.exists():
        write_safetensors(path, data(i))
    d = data(i)
    return {
        "literal": sd_mecha.model(d, name(i)), "path": sd_mecha.model(path, name(i)), "path inferred": sd_mecha.model(path), "raw": d,
        "merge": sd_mecha.n_average(sd_mecha.model(d, name(i)), sd_mecha.model(path)), "bare path": path,
        "param": sd_mecha.literal({k: 0.5 for k in d}, name(i)),
    }


def targets(j, root):
    path = root / f"{pre(j)}.safetensors"
    if not path.exists():
        write_safetensors(path, data(j))
    return {"name": name(j), "object": model_configs.resolve(name(j)), "recipe": sd_mecha.model(path), "recipe literal": sd_mecha.model(data(j), name(j))}


def is_merge(node):
    return hasattr(node, "merge_method")


def chain_of(node, original):
    """The conversions applied on top of the original recipe, innermost first; None if something else is there."""
    out = []
    while is_merge(node) and node is not original and node.merge_method.identifier.startswith(f"zz{TAG[0]}_"):
        out.append(int(node.merge_method.identifier.rsplit("_", 1)[1]))
        if len(node.args) != 1 or node.kwargs:
            return None
        node = node.args[0]
    return out[::-1] if node is original or not is_merge(original) else None


def snapshot(x):
    """What a failed conversion could change of a recipe."""
    if isinstance(x, dict):
        return [(k, fingerprint(v)) for k, v in x.items()]
    if isinstance(x, pathlib.Path):
        return x
    if is_merge(x):
        return (x.merge_method.identifier, [snapshot(a) for a in x.args], [(k, snapshot(v)) for k, v in x.kwargs.items()])
    return (id(x), x.model_config and x.model_config.identifier, x.merge_space.identifier, getattr(x, "state_dict", None) is None)


def one_graph(case):
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    s = Shard()
    s.case = case["_case"]
    register(n, edges)
    root = pathlib.Path(case["root"])
    count = 0
    for i in range(n):
        dist = distances(n, edges, i)
        for j in range(n):
            kinds = list(itertools.product(sources(i, root).items(), targets(j, root).items()))
            if not case["kinds"]:  # one combination per pair, rotating
                kinds = [kinds[(count * 5 + case["turn"]) % len(kinds)]]
            for (skind, src), (tkind, tgt) in kinds:
                count += 1
                s.trace()
                s.step()
                s.states.add(h64((n, tuple(sorted(set(edges))), i, j)))
                before = snapshot(src), (snapshot(tgt) if tkind.startswith("recipe") else None)
                where = f"edges {edges}, {skind} of config {i} to {tkind} of config {j}"
                try:
                    got = sd_mecha.convert(src, tgt)
                except ValueError as e:
                    got = None
                    if j in dist:
                        s.violation("refused", f"{where}: ValueError although there is a chain of {dist[j]} conversions: {e}")
                except Exception as e:
                    s.violation(f"error-{type(e).__name__}", f"{where}: {e!r}")
                    continue
                if before != (snapshot(src), (snapshot(tgt) if tkind.startswith("recipe") else None)):
                    s.violation("changed", f"{where}: the recipe was changed by converting it")
                if got is None:
                    continue
                if j not in dist:
                    s.violation("accepted", f"{where}: there is no chain of conversions, yet something was returned")
                    continue
                chain = chain_of(got, src) if not isinstance(got, dict) else []
                if chain is None:
                    s.violation("foreign", f"{where}: the result is not a chain of conversions of the recipe")
                    continue
                at = i
                for c in chain:
                    if edges[c][0] != at:
                        s.violation("broken-chain", f"{where}: conversions {chain} do not fit together")
                    at = edges[c][1]
                if at != j:
                    s.violation("broken-chain", f"{where}: conversions {chain} end in config {at}")
                if len(chain) != dist[j]:
                    s.violation("not-shortest", f"{where}: {len(chain)} conversions, {dist[j]} suffice")
                if case["merge"] and skind not in ("raw", "param") and not isinstance(got, (dict, pathlib.Path)):
                    out = sd_mecha.merge(got, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=4096, tqdm=NoBar)
                    want = {}
                    for k, t in data(i).items():
                        for c in chain:
                            k, t = pre(edges[c][1]) + "." + k.split(".")[1], t * 2 + (c + 1)
                        want[k] = t
                    if prints(out) != prints(want):
                        s.violation("value", f"{where}: merging the conversion gives wrong values")
    s.case = None
    return s


def some_graphs(cases):
    out = Shard()
    for k, c in enumerate(cases):
        TAG[0] = f"q{k}"
        out.merge(one_graph(c))
    return out


def graphs(case, s):
    base = str(scratch())
    s.merge(forked(some_graphs, [
        {"n": case["n"], "edges": edges, "kinds": case["kinds"], "merge": case["merge"], "turn": case["turn"] + k, "root": base,
         "_case": {"part": s.case["part"], "case": dict(case, graphs=[edges], turn=case["turn"] + k)}} for k, edges in enumerate(case["graphs"])]))
    s.sample({"configs": case["n"], "conversions": case["graphs"][-1]})


def indefinite(case, s):
    """Recipes without a definite config, unknown targets."""
    root = pathlib.Path(scratch())
    write_safetensors(root / "s.safetensors", {"q": torch.ones(2)})
    known = model_configs.resolve("sd1-kohya")
    full = {k: torch.ones(()) for k in known.keys()}
    recipes = {
        "number": 5, "string": "text", "none": None, "tensor": torch.ones(2), "number node": sd_mecha.literal(1.5), "unknown keys": {"q": torch.ones(2)},
        "unknown file": root / "s.safetensors", "unknown model": sd_mecha.model({"q": torch.ones(2)}), "structural": sd_mecha.model(
            {"q": torch.ones(2)}, model_configs.StructuralModelConfig({"q": model_configs.KeyMetadata([2], "float32")})),
        "empty model": sd_mecha.model({}), "number merge": sd_mecha.n_average(1.0, 2.0),
    }
    for rname, r in recipes.items():
        for tname, t in {"name": "sd1-ldm", "object": model_configs.resolve("sd1-ldm"), "recipe": sd_mecha.model({}, "sd1-ldm")}.items():
            s.trace()
            s.step()
            s.states.add(h64((rname, tname)))
            try:
                got = sd_mecha.convert(r, t)
                s.violation("accepted", f"a recipe without a config ({rname}) is converted to sd1-ldm: {got}")
            except ValueError:
                pass
            except Exception as e:
                s.violation(f"error-{type(e).__name__}", f"converting {rname} raises {e!r}, not ValueError")
    for rname, r in {"model": sd_mecha.model(full, "sd1-kohya"), "raw": full}.items():
        for tname, t in {"unknown": "nope-nope", "structural": "structural", "number recipe": sd_mecha.literal(3), "indefinite recipe": sd_mecha.model({"q": torch.ones(2)})}.items():
            s.trace()
            s.step()
            s.states.add(h64((rname, tname)))
            try:
                sd_mecha.convert(r, t)
                s.violation("accepted", f"conversion to {tname} is accepted")
            except ValueError:
                pass
            except Exception as e:
                s.violation(f"error-{type(e).__name__}", f"converting to {tname} raises {e!r}, not ValueError")


def builtin(case, s):
    """All pairs of registered configs, against breadth-first search over the registered conversions."""
    edges = []
    for c in merge_methods.get_all_converters():
        conf = c.get_input_configs()
        edges.append((conf.args[0].identifier, c.get_return_config(conf.args, conf.kwargs).identifier))
    every = [c.identifier for c in model_configs.get_all()]
    for a in every:
        dist = {a: 0}
        todo = [a]
        while todo:
            v = todo.pop(0)
            for x, y in edges:
                if x == v and y not in dist:
                    dist[y] = dist[v] + 1
                    todo.append(y)
        for b in every:
            s.trace()
            s.step()
            s.states.add(h64((a, b)))
            src = sd_mecha.model({}, a)
            try:
                got = sd_mecha.convert(src, b)
                n = 0
                while got is not src:
                    got, n = got.args[0], n + 1
                if dist.get(b) != n:
                    s.violation("length", f"{a} to {b}: {n} conversions, expected {dist.get(b)}")
            except ValueError:
                if b in dist:
                    s.violation("refused", f"{a} to {b} is refused")
            except Exception as e:
                s.violation(f"error-{type(e).__name__}", f"{a} to {b}: {e!r}")
    s.sample({"configs": len(every), "conversions": len(edges)})


def dictionaries(case, s):
    """A plain dictionary is converted from the config its keys fit best, of those a chain exists for."""
    s.merge(forked(_dictionaries, dict(case, _case=s.case)))


def _dictionaries(case):
    s = Shard()
    s.case = case["_case"]
    for number, configs in enumerate(case["configs"]):
        for convertible in itertools.product((0, 1), repeat=len(configs)):
            tag = f"c02d{case['number']}x{number}x{''.join(map(str, convertible))}"
            sets = [[f"{tag}.{k}" for k in c] for c in configs]
            names = [f"{tag}{'bac'[i]}-n" for i in range(len(sets))]
            target = f"{tag}-target"
            for n, ks in (*zip(names, sets), (target, [f"{tag}.z"])):
                model_configs.register(model_configs.ModelConfigImpl(n, {"c": {k: {"shape": [1], "dtype": "float64"} for k in ks}}))
            for i, n in enumerate(names):
                if convertible[i]:
                    def conversion(src: P(SD[Tn], model_config=n), **kwargs) -> Rt(Tn, model_config=target):
                        return src[tag + ".a"]
                    sd_mecha.merge_method(conversion, identifier=f"{tag}_{i}", is_conversion=True)
            every = sorted({k for c in sets for k in c})
            for bits in range(1, 2 ** len(every)):
                for unknown in (1, 9):
                    keys = [k for i, k in enumerate(every) if bits >> i & 1] + [f"{tag}.unknown{i}" for i in range(unknown)]
                    aff = {i: n for i, n in affinities(keys, sets).items() if convertible[i]}
                    best = {f"{tag}_{i}" for i in aff if aff[i] == max(aff.values())}
                    source = {k: torch.ones(1) for k in keys}
                    s.trace()
                    s.step()
                    s.states.add(h64((case["number"], number, convertible, bits, unknown)))
                    where = f"configs {sets}, conversions from {convertible}, a dictionary of {keys}"
                    try:
                        got = sd_mecha.convert(source, target)
                    except ValueError as e:
                        if best:
                            s.violation("dictionary-refused", f"{where}: {e!r}")
                        continue
                    if got.merge_method.identifier not in best:
                        s.violation("dictionary", f"{where}: converted by {got.merge_method}, expected {sorted(best)}")
    s.case = None
    return s


PARTS = {"dictionaries": dictionaries, "graphs": graphs, "indefinite": indefinite, "builtin": builtin}


def run(ck):
    ck.rule = "a state is one (graph of conversions, start, goal); each is converted with the real function and the chain compared with breadth-first search"
    for c in model_configs.get_all():
        c.keys()

    def orders(n):
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        for r in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, r):
                yield list(es)

    cases = []
    three = list(orders(3))
    for n, gs in ((2, [g for g in orders(2)]), (3, three)):
        both = [o for g in gs for o in {tuple(g), tuple(g[::-1])}]
        if ck.thorough or n == 2:
            both = sorted({p for g in gs for p in (itertools.permutations(g) if len(g) < 5 else [tuple(g), tuple(g[::-1])])})
        both.sort(key=len)
        both += [tuple(g) + tuple(g[:1]) for g in gs if g]  # a conversion registered twice
        chunk = 8
        both = [list(map(list, g)) for g in both]
        cases += [{"n": n, "graphs": both[i:i + chunk], "turn": i, "kinds": ck.thorough or n == 2 or len(both[i]) in (2, 3), "merge": ck.thorough or n == 2} for i in range(0, len(both), chunk)]
    four = [list(map(list, g)) for g in orders(4)]
    if not ck.thorough:
        four = [g for g in four if len(g) <= 4 or len(g) == 12]
    four += [g[::-1] for g in four]
    cases += [{"n": 4, "graphs": four[i:i + 16], "turn": i, "kinds": False, "merge": False} for i in range(0, len(four), 16)]
    lines = [[[i, i + 1] for i in range(5)], [[i, (i + 1) % 6] for i in range(6)], [[i + 1, i] for i in range(5)] + [[0, 5]],
             [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [0, 2], [2, 5]]]
    cases += [{"n": 6, "graphs": [g, g[::-1]], "turn": 0, "kinds": False, "merge": True} for g in lines]
    # a chain of two conversions besides a chain of three, under every naming of the configs and both orders of the first conversions
    five = [[[p[i], p[j]] for i, j in es] for p in itertools.permutations(range(5))
            for es in ([(0, 1), (0, 2), (1, 3), (2, 4), (4, 3)], [(0, 2), (0, 1), (1, 3), (2, 4), (4, 3)])]
    if ck.thorough:
        five += [list(map(list, g)) for g in itertools.permutations([(0, 1), (0, 2), (1, 3), (2, 4), (4, 3)])]
    cases += [{"n": 5, "graphs": five[i:i + 16], "turn": i, "kinds": False, "merge": False} for i in range(0, len(five), 16)]
    ck.bounds = {"configs": 4, "graphs": "all on 2 and 3 configs; on 4 configs " + ("all" if ck.thorough else "up to 4 conversions, and the complete one") + "; on 5 configs every naming of a short chain beside a longer one",
                 "registration orders": "both directions" + (", all up to 4 conversions" if ck.thorough else "")}
    ck.cases("graphs", graphs, cases, chunk=1, limit=300)
    sub = ["abcd", "abc", "bcde", "cdef", "ab", "def", "abcdef"]
    sets = [list(map(list, c)) for r in (2, 3) for c in itertools.combinations(sub, r)]
    sets = (sets + [c[::-1] for c in sets]) if ck.thorough else sets[:6:3] + sets[21::7] + [c[::-1] for c in sets[4::16]]
    ck.cases("dictionaries", dictionaries, [{"configs": [c], "number": i} for i, c in enumerate(sets)], chunk=1)
    ck.cases("indefinite", indefinite, [{}])
    ck.cases("builtin", builtin, [{}])
