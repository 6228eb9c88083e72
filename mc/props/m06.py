"""M06: operations do not depend on what ran before in the process (all histories up to a depth, forked at every node)."""
from .. import probes, recipes
from ..env import *
from ..core import scratch, forked, ChildDied, h64
from ..probes import P, Rt, Tn, SD

A, B = "zzh-a", "zzh-b"


def setup():
    """Registered once, before any operation of the library runs in this process."""
    f32 = {"shape": [2], "dtype": "float32"}
    spec = {"c": {"m": f32, "o": f32 | {"optional": True}, "l": f32 | {"aliases": ["l_alias"]}}, "ema": {"e": f32 | {"optional": True}}}
    model_configs.register(model_configs.ModelConfigImpl(A, spec))
    model_configs.register(model_configs.ModelConfigImpl(B, {"c": {"x": f32, "y": f32}}))

    @sd_mecha.merge_method(identifier="mc_hist_conv", is_conversion=True)
    def mc_hist_conv(a: P(SD[Tn], model_config=A), **kwargs) -> Rt(Tn, model_config=B):
        return a[{"x": "m", "y": "l"}[kwargs["key"]]]

    @sd_mecha.merge_method(identifier="mc_hist_fail")
    def mc_hist_fail(a: P(Tn), **kwargs) -> Rt(Tn):
        if kwargs["key"] == "l":
            raise ArithmeticError("wanted")
        return a


class World:
    """Objects shared by the operations of a history, and the operations themselves."""

    def __init__(self, root):
        self.root = root
        t = lambda i, names: {k: torch.full((2,), float(i * 8 + j)) for j, k in enumerate(names)}
        full = ["m", "o", "l", "e", "u"]
        self.explicit = sd_mecha.model(t(1, full), A)
        self.inferred = sd_mecha.model(t(2, ["m", "o", "l_alias", "e"]))
        self.lacking = sd_mecha.model(t(3, ["o", "e"]), A)
        self.other = sd_mecha.model(t(4, ["p", "q"]))
        self.hint = sd_mecha.model(t(5, ["m", "l"]), model_configs.INFER)
        write_safetensors(root / "h.safetensors", t(6, ["m", "o", "l", "e"]), {"k": "v"})
        self.file = sd_mecha.model(root / "h.safetensors")
        self.r1 = sd_mecha.n_average(self.explicit, self.inferred)
        self.r2 = sd_mecha.weighted_sum(self.file, self.inferred, 0.25)
        self.r3 = sd_mecha.weighted_sum(self.file, self.explicit, {"m": 0.5, "o": 0.25, "l": 0.75, "e": 1.0})
        method = merge_methods.resolve("mc_hist_fail")
        self.failing = method(self.r2)
        self.delta = self.file - self.explicit
        self.shared = sd_mecha.Defaults(threads=0, tqdm=NoBar, merge_dtype=torch.float32, output_dtype=torch.float32, total_buffer_size=64, model_dirs=[root], omit_ema=False)
        self.text = serialization.serialize(sd_mecha.n_average(self.file, self.file))

    def merge(self, recipe, **kw):
        kw = dict(threads=0, total_buffer_size=64, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar) | kw
        got = sd_mecha.merge(recipe, **kw)
        return None if got is None else sorted(prints(got).items())

    def to_file(self, recipe):
        path = self.root / f"out{os.getpid()}.safetensors"
        try:
            self.merge(recipe, output=path)
            got, meta = parse_safetensors(path.read_bytes())
            return sorted(got.items()), meta
        finally:
            path.unlink(missing_ok=True)

    def opened(self, recipe, fail=False):
        with sd_mecha.open_input_dicts(recipe, [], 16):
            if fail:
                raise ArithmeticError("wanted")
            return sorted(recipe.model_config.keys()), recipe.model_config.identifier

    def registry(self):
        out = [sorted(c.identifier for c in model_configs.get_all()), sorted(m.identifier for m in merge_methods.get_all()) if hasattr(merge_methods, "get_all") else None]
        for i in (A, B):
            c = model_configs.resolve(i)
            out.append([(n, sorted((k, repr(v)) for k, v in comp.keys().items())) for n, comp in c.components().items()])
            out.append([sorted((k, repr(v)) for k, v in x.items()) for x in (c.keys(), c.metadata(), c.aliases())])
        return out

    def nodes(self):
        return [recipes.abstract(r) for r in (self.explicit, self.inferred, self.lacking, self.other, self.file, self.r1, self.r2, self.r3, self.failing)]

    def with_shared(self, recipe=None, **kw):
        return sorted(prints(self.shared.merge(self.r2 if recipe is None else recipe, **kw)).items())

    def defaults(self):
        d = sd_mecha.Defaults(threads=0, tqdm=NoBar, merge_dtype=torch.float32, output_dtype=torch.float32, total_buffer_size=64)
        return sorted(prints(d.merge(self.r2)).items())

    OPS = {
        "merge": lambda w: w.merge(w.r1),
        "merge keep ema": lambda w: w.merge(w.r1, omit_ema=False),
        "merge keep extra": lambda w: w.merge(w.r1, omit_extra_keys=False, omit_ema=True),
        "merge mandatory": lambda w: w.merge(w.r2 | w.lacking, check_mandatory_keys=True),
        "merge inferred": lambda w: w.merge(w.inferred, omit_ema=False),
        "merge file threads": lambda w: w.merge(w.r2, threads=2, omit_ema=False),
        "merge parameters": lambda w: w.merge(w.r3),
        "merge to file": lambda w: w.to_file(w.r2),
        "merge fails": lambda w: w.merge(w.failing),
        "merge delta": lambda w: w.merge(w.delta),
        "merge fallback": lambda w: w.merge(w.lacking, fallback_model=w.file, omit_ema=False),
        "merge structural": lambda w: w.merge(w.other),
        "merge infer hint": lambda w: w.merge(w.hint),
        "merge defaults": lambda w: w.defaults(),
        "shared defaults": lambda w: w.with_shared(),
        "shared defaults, overridden": lambda w: w.with_shared(output_dtype=torch.float64, omit_ema=True, omit_extra_keys=False, strict_weight_space=False, model_dirs=[], check_finite=False),
        "shared defaults, relative": lambda w: w.with_shared(sd_mecha.model("h.safetensors")),
        "shared defaults, fallback": lambda w: w.with_shared(w.lacking, fallback_model=w.explicit),
        "open": lambda w: w.opened(w.r2),
        "open fails": lambda w: w.opened(w.r1, True),
        "convert": lambda w: recipes.abstract(sd_mecha.convert(w.inferred, B)),
        "convert and merge": lambda w: w.merge(sd_mecha.convert(w.file, B)),
        "convert fails": lambda w: recipes.abstract(sd_mecha.convert(w.other, B)),
        "convert like": lambda w: recipes.abstract(sd_mecha.convert(w.file, sd_mecha.convert(w.explicit, B))),
        "serialize": lambda w: serialization.serialize(w.r2.args[0]),
        "deserialize": lambda w: recipes.abstract(serialization.deserialize(w.text)),
        "deserialize and merge": lambda w: w.merge(serialization.deserialize(w.text)),
        "deserialize fails": lambda w: recipes.abstract(serialization.deserialize(w.text.replace("n_average", "nonsense"))),
        "yaml": lambda w: model_configs.to_yaml(model_configs.resolve(A)),
        "registry": lambda w: w.registry(),
        "nodes": lambda w: w.nodes(),
    }
    BUILTIN = {
        "builtin merge": lambda w: w.builtin(),
        "builtin keep ema": lambda w: w.builtin(omit_ema=False),
        "builtin extra": lambda w: w.builtin(omit_extra_keys=False),
        "builtin convert": lambda w: w.builtin(convert=True),
        "builtin infer": lambda w: [sorted(c.identifier for c in s) for s in sd_mecha.infer_model_configs(w.builtin_data())][:1],
        "builtin mandatory": lambda w: w.builtin(check_mandatory_keys=True),
        "builtin yaml": lambda w: h64(model_configs.to_yaml(model_configs.resolve("sd1-ldm"))),
        "builtin keys": lambda w: h64([sorted((k, repr(v)) for k, v in x.items()) for x in (
            model_configs.resolve("sd1-ldm").keys(), model_configs.resolve("sd1-ldm").metadata(), model_configs.resolve("sd1-ldm").aliases())]),
    }

    def builtin_data(self):
        if not hasattr(self, "_b"):
            self._b = {k: torch.ones(1) for k in model_configs.resolve("sd1-ldm").keys()}
            self._node = sd_mecha.model(self._b)
        return self._b

    def builtin(self, convert=False, **kw):
        self.builtin_data()
        if convert:
            data = {k: torch.ones(1) for k in model_configs.resolve("flux-flux_diffuser_only").keys()}
            return h64(self.merge(sd_mecha.convert(sd_mecha.model(data), "flux-flux")))
        r = self._node
        try:
            return h64(self.merge(r, **kw))
        except RuntimeError as e:
            return type(e).__name__


ALL = World.OPS | World.BUILTIN


def attempt(world, op):
    try:
        return ("value", ALL[op](world))
    except Exception as e:
        return ("error", type(e).__name__)


def fresh(root, op):
    return attempt(World(root), op)


def tree(root, names, first, depth, expected):
    """Every history that starts with `first`, down to the depth: (violations, histories, states)."""
    world = World(root)
    out = ([], [0], set())

    def node(history):
        op = history[-1]
        got = attempt(world, op)
        out[1][0] += 1
        out[2].add(h64((op, got)))
        if got != expected[op]:
            out[0].append((history, describe(expected[op]), describe(got)))
        elif len(history) < depth:
            for n in names:
                b, c, st = forked(node_in_child, history + [n])
                out[0].extend(b)
                out[1][0] += c[0]
                out[2].update(st)
        return out

    def node_in_child(history):
        out[0].clear()
        out[1][0] = 0
        out[2].clear()
        return node(history)

    return node([first])


def describe(r):
    return repr(r)[:600]


def histories(case, s):
    root = pathlib.Path(scratch())
    try:
        setup()
    except ValueError:
        pass
    names = case["names"]
    if "builtin merge" not in names:  # (there, loading the builtin configs is part of the histories)
        sd_mecha.infer_model_configs(["m"])
        for c in model_configs.get_all():
            c.metadata()
    if case.get("history"):
        world = World(root)
        exp = forked(fresh, root, case["history"][-1])
        got = [forked_chain(root, case["history"])][0]
        s.trace()
        if got != exp:
            s.violation(f"history-{case['history'][-1]}", f"{case['history']}: {describe(got)} instead of {describe(exp)}")
        return
    expected = {n: forked(fresh, root, n) for n in names}
    for op, r in expected.items():
        want_error = op in ("merge mandatory", "merge fails", "merge delta", "open fails", "convert fails", "deserialize fails", "merge structural?")
        if (r[0] == "error") != want_error:
            s.violation(f"alone-{op}", f"{op}, alone in a fresh process, gives {describe(r)}")
    bad, n, states = forked(tree, root, names, case["first"], case["depth"], expected)
    s.trace(n[0])
    s.step(n[0])
    s.states |= states
    for history, exp, got in bad[:50]:
        s.violation(f"history-{history[-1]}", f"after {history[:-1]}, {history[-1]!r} gives {got} instead of {exp}",
                    {"part": "histories", "case": {"names": names, "history": history}})
    s.sample({"first": case["first"], "depth": case["depth"], "histories": n[0]})


def forked_chain(root, history):
    def chain():
        w = World(root)
        for op in history:
            r = attempt(w, op)
        return r
    return forked(chain)


# ------------------------------------------------------------------ recipes are built from a method however it was called before
def forms(method):
    """Ways to call the method: operands only, then every optional parameter by keyword, then by position, and refused calls."""
    names, types, defaults = method.get_param_names(), method.get_input_types(), method.get_default_args()
    spaces = method.get_input_merge_spaces().as_dict(9)
    space = lambda i: sorted(sp.identifier for sp in getattr(spaces[i], "merge_spaces", spaces[i]))[0]
    value = {bool: True, int: 3, float: 0.375, str: "float32"}
    need = len(names.args) - len(defaults.args)

    def operand(i, ty):
        if ty in value:
            return value[ty]
        return sd_mecha.literal(1.5 + (i if isinstance(i, int) else 7), merge_space=space(i))

    pos = [operand(i, types.args[i]) for i in range(len(names.args))]
    more = [operand(len(pos) + j, types.vararg) for j in range(2)] if names.has_varargs() else []
    must = {k: operand(k, types.kwargs[k]) for k in names.kwargs if k not in defaults.kwargs}
    out = {"plain": (pos[:need] + (more if not defaults.args else []), must)}
    for k in names.kwargs:
        if k in defaults.kwargs:
            out[f"{k}="] = (out["plain"][0], must | {k: operand(k, types.kwargs[k])})
    for i in range(need, len(names.args)):
        out[f"{names.args[i]} by position"] = (pos[:i + 1], must)
        out[f"{names.args[i]}="] = (pos[:need], must | {names.args[i]: pos[i]})
    if len(defaults.kwargs) > 1:
        out["every keyword"] = (out["plain"][0], {k: operand(k, types.kwargs[k]) for k in names.kwargs})
    if more:
        out["one more"] = (out["plain"][0] + more[:1], must)
        out["none"] = ([], must)
    out["unknown keyword"] = (out["plain"][0], must | {"nonsense": 1.0})
    out["too few"] = (out["plain"][0][1:], must)
    return out


def description(method):
    args = lambda fa: [repr(x) for x in fa.args] + [repr(fa.vararg) if not fa.args or fa.has_varargs() else ""] + sorted((k, repr(v)) for k, v in fa.kwargs.items())
    return [args(f()) for f in (method.get_param_names, method.get_default_args, method.get_input_types)] + [
        [sorted(getattr(x, "identifier", str(x)) for x in getattr(v, "merge_spaces", v)) for v in method.get_input_merge_spaces().as_dict(4).values()],
        [getattr(v, "identifier", None) for v in method.get_input_configs().as_dict(4).values()], method.identifier]


def call(method, form):
    try:
        if form is None:
            return ("described", description(method))
        return ("recipe", recipes.abstract(method(*form[0], **form[1])))
    except Exception as e:
        return ("error", type(e).__name__)


def in_sequence(name, order):
    method = merge_methods.resolve(name)
    fs = forms(method) | {"describe": None}
    return [repr(call(method, fs[f])) for f in order]


def calls(case, s):
    """For every form f: f, then all the others, then f again; each as when it is the only one in the process."""
    for name in case["names"]:
        fs = list(forked(lambda: list(forms(merge_methods.resolve(name))))) + ["describe"]
        alone = {f: forked(in_sequence, name, [f])[0] for f in fs}
        s.count("recipes alone", sum("recipe" in v for v in alone.values()))
        for f in [case["only"]] if "only" in case else fs:
            order = [f] + [g for g in fs if g != f] + [f]
            s.trace()
            for g, got in zip(order, forked(in_sequence, name, order)):
                s.step()
                s.states.add(h64((name, f, g)))
                if got != alone[g]:
                    s.violation(f"call-{name}", f"{name}: calling it as '{g}' after '{f}' and others gives {got[:300]} instead of {alone[g][:300]}",
                                {"part": "calls", "case": {"names": [name], "only": f}})
                    break


def contents():
    """Contents of one model file: the first four are files of exactly the same size."""
    a, b = torch.arange(4.), torch.arange(4.) + 10
    return {
        "first": {"k.a": a, "k.b": b},
        "renamed": {"k.a": a, "k.c": b},
        "exchanged": {"k.b": a, "k.a": b},
        "values": {"k.a": a + 1, "k.b": b + 1},
        "shapes": {"k.a": a.reshape(2, 2), "k.b": b},
        "one more": {"k.a": a, "k.b": b, "k.d": a},
        "config A": {"m": a[:2], "l": b[:2], "o": a[2:]},
        "config B": {"x": a[:2], "y": b[:2]},
    }


def changing(case, s):
    """A model file that changes between the operations: each reads what is there at that time."""
    try:
        setup()
    except ValueError:
        pass
    root = pathlib.Path(scratch()) / "m06c"
    root.mkdir(exist_ok=True)
    data = contents()
    path, out = root / "c.safetensors", root / "o.safetensors"
    kw = dict(threads=0, total_buffer_size=64, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar)
    for history in case["histories"]:
        path.unlink(missing_ok=True)
        node = sd_mecha.model(path)
        pair = sd_mecha.n_average(node, sd_mecha.model(path))
        now = None
        s.trace()
        s.state(tuple(map(str, history)))
        for i, (op, arg) in enumerate(history):
            s.step()
            where = f"{history[:i + 1]}"
            if op == "write":
                if arg[1] == "replace":
                    write_safetensors(root / "n.safetensors", data[arg[0]])
                    os.replace(root / "n.safetensors", path)
                else:
                    write_safetensors(path, data[arg[0]])
                os.utime(path, (10 ** 9, 10 ** 9))
                now = arg[0]
                continue
            want = data[now]
            try:
                if op == "merge":
                    got = sd_mecha.merge({"same": node, "new": sd_mecha.model(path), "pair": pair}[arg], **kw)
                elif op == "save":
                    sd_mecha.merge(node, output=out, **kw)
                    raw, _ = parse_safetensors(out.read_bytes())
                    got = {k: torch.frombuffer(bytearray.fromhex(v[2]), dtype=DT[v[0]]).reshape(v[1]) for k, v in raw.items()}
                elif op == "onto":  # the file itself is written by a merge
                    sd_mecha.merge(sd_mecha.model({k: v + 1 for k, v in data[arg].items()}), output=path, **kw)
                    data["written " + arg] = {k: v + 1 for k, v in data[arg].items()}
                    now = "written " + arg
                    continue
                elif op == "open":
                    with sd_mecha.open_input_dicts(node, ()):
                        got = dict(node.state_dict.items())
                        conf = node.model_config.identifier
                    named = {"config A": A, "config B": B, "written config B": B}.get(now, "structural")
                    if conf != named:
                        s.violation("changing-config", f"{where}: config {conf}, expected {named}")
            except Exception as e:
                s.violation("changing-error", f"{where}: {e!r}")
                break
            if prints(got) != prints(want):
                s.violation("changing", f"{where}: the file holds {now} and the result is {sorted((k, v.tolist()) for k, v in got.items())}")
    s.sample({"history": [list(map(str, h)) for h in history]})


PARTS = {"histories": histories, "calls": calls, "changing files": changing}


def run(ck):
    small, big = list(World.OPS), list(World.BUILTIN)
    cases = [{"names": small, "first": n, "depth": 3 if ck.thorough else 2} for n in small]
    core = ["merge keep extra", "merge mandatory", "merge to file", "merge fails", "merge infer hint", "open", "convert", "convert and merge", "convert fails", "serialize", "registry", "nodes", "merge keep ema"]
    if not ck.thorough:
        cases += [{"names": core, "first": n, "depth": 3} for n in core]
    else:
        cases += [{"names": core, "first": n, "depth": 4} for n in core]
    cases += [{"names": big, "first": n, "depth": 3 if ck.thorough else 2} for n in big]
    ck.rule = "a trace is one history of operations, executed in a process forked at every node; each result is compared with that of the same operation alone in a fresh process"
    ck.bounds = {"operations": small + big, "depth": {"all": 3 if ck.thorough else 2, "core": 4 if ck.thorough else 3, "builtin": 3 if ck.thorough else 2}, "core": core}
    names_c = list(contents())
    reads = [("merge", "same"), ("merge", "new"), ("merge", "pair"), ("save", None), ("open", None)]
    hs = [[("write", (a, "in place")), r1, ("write", (b, w)), r2] for a in names_c for b in names_c for w in ("in place", "replace") for r1 in reads for r2 in reads]
    hs += [[("write", (a, "in place")), r1, ("onto", b), r2] for a in names_c for b in ("first", "values", "config B") for r1 in reads for r2 in reads]
    three = [("first", "renamed", "exchanged"), ("first", "values", "first"), ("config A", "config B", "config A"), ("one more", "first", "shapes")]
    hs += [[x for a in names3 for x in (("write", (a, w)), r)] for names3 in three for w in ("in place", "replace") for r in reads]
    ck.cases("changing files", changing, [{"histories": hs[i:i + 80]} for i in range(0, len(hs), 80)], chunk=1)
    names = sorted(m.identifier for m in merge_methods.get_all())
    ck.cases("calls", calls, [{"names": names[i:i + 4]} for i in range(0, len(names), 4)], chunk=1)
    ck.cases("histories", histories, cases, chunk=1, limit=900)
