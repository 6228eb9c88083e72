"""E01: identifiers resolve to what was registered, and one format reads each model file."""
import itertools
from .. import probes
from ..env import *
from ..core import forked, scratch
from sd_mecha.extensions import model_formats

UNKNOWN = ["zz nowhere", "", "!?", "é", "weigh", "sd1", "single_fil", "WEIGHT"]


def config(ident):
    return model_configs.ModelConfigImpl(ident, {"c": {"k": {"shape": [1], "dtype": "float32"}}})


def fmt_class(name="Fmt"):
    return type(name, (model_formats.ModelFormat,), {"matches": lambda self, path: False, "get_read_dict": lambda self, path, size: None, "get_write_dict": lambda self, *a: None})


class Registry:
    """One registry of the library: how to register, resolve and list, and whether a taken identifier may be replaced."""
    replace = False

    def same(self, got, obj, ident):
        return got is obj


class Spaces(Registry):
    def register(self, ident, how):
        merge_spaces.register_merge_space(ident)
        return merge_spaces.resolve(ident)

    resolve = staticmethod(merge_spaces.resolve)

    def ids(self):
        return sorted(x.identifier for x in merge_spaces.get_all())


class Configs(Registry):
    def register(self, ident, how):
        c = config(ident)
        (model_configs.register_aux if how else model_configs.register)(c)
        return c

    resolve = staticmethod(model_configs.resolve)

    def ids(self):
        base, aux = [c.identifier for c in model_configs.get_all_base()], [c.identifier for c in model_configs.get_all_aux()]
        all_ = [c.identifier for c in model_configs.get_all()]
        if sorted(base + aux) != sorted(all_):
            return ["get_all differs from base and aux"]
        if all_ != sorted(all_, reverse=True):
            return ["get_all is not ordered"]
        return sorted(all_)


class Formats(Registry):
    def register(self, ident, how):
        cls = fmt_class(ident if how else "Fmt")
        if how:
            model_formats.register_model_format(cls)
        else:
            model_formats.register_model_format(identifier=ident)(cls)
        return cls

    resolve = staticmethod(model_formats.resolve)

    def same(self, got, obj, ident):
        return isinstance(got, obj) and got.identifier == ident

    def ids(self):
        return sorted(f.identifier for f in model_formats.get_all())


class Methods(Registry):
    replace = True

    def register(self, ident, how):
        def fn(a: probes.P(torch.Tensor)) -> probes.Rt(torch.Tensor):
            return a
        fn.__name__ = ident
        return sd_mecha.merge_method(fn) if how else sd_mecha.merge_method(identifier=ident)(fn)

    resolve = staticmethod(merge_methods.resolve)

    def ids(self):
        return sorted(m.identifier for m in merge_methods.get_all())


KINDS = {"merge space": Spaces, "model config": Configs, "model format": Formats, "merge method": Methods}
IDS = ["a", "b"]
OPS = [("register", i, how) for i in IDS for how in (0, 1)] + [("resolve", i, 0) for i in IDS]


def histories(case, s):
    out = forked(_histories, case)
    for st in out["states"]:
        s.state(st)
    s.trace(out["traces"])
    s.step(out["steps"])
    for sig, msg in out["bad"]:
        s.violation(sig, msg)
    s.sample({"kind": case["kind"], "history": case["histories"][0]})


def _histories(case):
    out = {"states": [], "traces": 0, "steps": 0, "bad": []}
    reg = KINDS[case["kind"]]()
    for n, ops in enumerate(case["histories"]):
        name = {i: f"zz{n}-{i}" if case["kind"] != "model format" else f"Zz{n}{i}" for i in IDS}
        ref, base = {}, reg.ids()
        out["traces"] += 1
        for depth, (op, i, how) in enumerate(ops):
            ident = name[i]
            where = f"{case['kind']}: {ops[:depth + 1]}"
            out["steps"] += 1
            try:
                got, err = (reg.register(ident, how) if op == "register" else reg.resolve(ident)), None
            except Exception as e:
                got, err = None, e
            if op == "register":
                refuse = ident in ref and not reg.replace
                if not refuse and err is None:
                    ref[ident] = got
            else:
                refuse = ident not in ref
                if err is None and not refuse and not reg.same(got, ref[ident], ident):
                    out["bad"].append(("resolves", f"{where}: {ident} resolves to another object"))
            if refuse and err is None:
                out["bad"].append(("accepted", f"{where} is accepted"))
            elif refuse and not isinstance(err, ValueError):
                out["bad"].append(("error", f"{where}: {err!r}"))
            elif not refuse and err is not None:
                out["bad"].append(("refused", f"{where}: {err!r}"))
            for k, v in ref.items():
                try:
                    if not reg.same(reg.resolve(k), v, k):
                        out["bad"].append(("lost", f"{where}: {k} now resolves to another object"))
                except Exception as e:
                    out["bad"].append(("lost", f"{where}: {k} now gives {e!r}"))
            ids = reg.ids()
            if ids != sorted(base + list(ref)):
                out["bad"].append(("listed", f"{where}: listed are {sorted(set(ids) - set(base))} {ids if len(ids) < 3 else ''}, registered {sorted(ref)}"))
            out["states"].append((case["kind"], tuple(sorted(k[-1] for k in ref)), op, i, how, depth))
    return out


def builtin(case, s):
    """Taken builtin identifiers stay what they are; unknown ones are refused everywhere they can be given."""
    for kind, cls in KINDS.items():
        reg = cls()
        before = reg.ids()
        for ident in before:
            s.trace()
            s.step()
            s.state((kind, ident))
            obj = reg.resolve(ident)
            if obj.identifier != ident:
                s.violation("builtin", f"{kind} {ident} resolves to {obj.identifier}")
            if reg.replace:
                continue
            try:
                reg.register(ident, 0)
                s.violation("builtin-taken", f"{kind} {ident} can be registered again")
            except ValueError:
                pass
            if reg.resolve(ident) is not obj:
                s.violation("builtin-replaced", f"{kind} {ident} was replaced by a refused registration")
        if reg.ids() != before:
            s.violation("builtin-listed", f"{kind}: {before} became {reg.ids()}")
        near = [v for i in before for v in (f" {i}", f"{i} ", f"{i}\n", i.upper(), i.title(), i[:-1], i[1:], i + i[-1], i.replace("-", "_"), i.replace("_", "-"), i + ".yaml", i + ".safetensors", f'"{i}"')]
        for ident in UNKNOWN + [v for v in dict.fromkeys(near) if v not in before and v not in ("infer", "structural")]:
            s.trace()
            try:
                got = reg.resolve(ident)
                if got.identifier != ident:
                    s.violation("unknown", f"{kind} {ident!r} resolves to {got}")
            except ValueError:
                pass
    uses = {
        "model config": lambda i: sd_mecha.model("x.safetensors", i), "model space": lambda i: sd_mecha.model("x.safetensors", merge_space=i), "literal config": lambda i: sd_mecha.literal({"a": 1.0}, i),
        "literal space": lambda i: sd_mecha.literal(1.0, merge_space=i), "parameter space": lambda i: probes.P(torch.Tensor, i), "parameter config": lambda i: probes.P(torch.Tensor, None, i),
        "return space": lambda i: probes.Rt(torch.Tensor, i), "return config": lambda i: probes.Rt(torch.Tensor, None, i), "convert": lambda i: sd_mecha.convert(sd_mecha.literal({"a": 1.0}, "sd1-ldm"), i),
    }
    for use, fn in uses.items():
        for ident in UNKNOWN:
            s.trace()
            s.state((use, ident))
            try:
                got = fn(ident)
                s.violation("unknown-used", f"{use} {ident!r} is accepted: {got}")
            except ValueError:
                pass
    for bad in (lambda: model_formats.register_model_format(fmt_class()()), lambda: model_formats.register_model_format("x"), lambda: model_formats.register_model_format(3, identifier="zz")):
        s.trace()
        n = model_formats.get_all()
        try:
            bad()
            s.violation("not-a-class", "something that is no class is accepted as a model format")
        except (ValueError, TypeError):
            pass
        if model_formats.get_all() != n:
            s.violation("not-a-class", "a refused model format is registered")


def redefined(case, s):
    out = forked(_redefined, case)
    s.trace(out[0])
    s.step(out[0])
    s.state(str(case))
    for m in out[1]:
        s.violation("redefined", m)


def _redefined(case):
    """A method defined again: recipes built before keep theirs, recipes built or read afterwards use the new one."""
    bad, n = [], 0
    held, texts = [], []
    x = torch.ones(1, dtype=torch.float64)
    merge = lambda r: sd_mecha.merge(r, threads=0, tqdm=NoBar, output_dtype=torch.float64, strict_weight_space=False)["k"].item()
    for i, op in enumerate(case["ops"]):
        f = float(i + 2)
        if op == "define":
            ns = {"P": probes.P, "Rt": probes.Rt, "Tn": torch.Tensor, "f": f}
            exec("def zz_again(a: P(Tn), b: P(float) = f) -> Rt(Tn):\n    return a * b * f", ns)
            current, value = sd_mecha.merge_method(ns["zz_again"]), f * f
            node = current(sd_mecha.literal({"k": x}, merge_space="weight"))
            held.append((node, value))
        elif op == "text":
            texts.append(sd_mecha.serialize(current(sd_mecha.model("x.safetensors"))))
        elif op == "builtin":  # a builtin replaced by the user
            ns = {"P": probes.P, "Rt": probes.Rt, "Tn": torch.Tensor, "f": f}
            exec("def clamp(a: P(Tn), *b: P(Tn)) -> Rt(Tn):\n    return a * f", ns)
            mine = sd_mecha.merge_method(ns["clamp"])
            n += 1
            if merge_methods.resolve("clamp") is not mine or merge(mine(sd_mecha.literal({"k": x}, merge_space="weight"))) != f:
                bad.append(f"{case['ops'][:i + 1]}: the new definition of clamp is not the one used")
            one = sd_mecha.literal({"k": x}, merge_space="weight")
            if merge(sd_mecha.clamp(one, one, one)) != 1.0:
                bad.append(f"{case['ops'][:i + 1]}: sd_mecha.clamp changed")
        for node, v in held:
            n += 1
            if merge(node) != v:
                bad.append(f"{case['ops'][:i + 1]}: a recipe built with an earlier definition gives {merge(node)} instead of {v}")
        for t in texts:
            n += 1
            node = sd_mecha.deserialize(t)
            if node.merge_method is not current:
                bad.append(f"{case['ops'][:i + 1]}: a recipe read back does not use the current definition")
    return n, bad


class Dict(streaming.SafetensorsMapping):
    """What a model format gives: a mapping with metadata that can be closed."""

    def __init__(self, log, data):
        self.log, self.data = log, data

    def __getitem__(self, k):
        if k not in self.data:
            raise sd_mecha.StateDictKeyError(k)
        return self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def metadata(self):
        for k, v in self.data.items():
            yield k, streaming.TensorMetadata(v.shape, v.dtype)

    def close(self):
        self.log.append("close")


def formats(case, s):
    out = forked(_formats, case)
    s.trace(out[0])
    s.step(out[0])
    for st in out[2]:
        s.state(st)
    for sig, m in out[1]:
        s.violation(sig, m)
    s.sample(case)


def _formats(case):
    """Each registered format matches a set of suffixes; every path is read by the only one that matches it."""
    root = pathlib.Path(scratch()) / "e01"
    root.mkdir(exist_ok=True)
    bad, states, n = [], [], 0
    reads = []

    def make(i, suffixes):
        class Format(model_formats.ModelFormat):
            def matches(self, path):
                return pathlib.Path(path).suffix in suffixes

            def get_read_dict(self, path, buffer_size):
                log = []
                reads.append((i, pathlib.Path(path).name, log))
                return Dict(log, {"k": torch.full((1,), float(10 + i))})

            def get_write_dict(self, *a):
                raise NotImplementedError
        return Format

    for i, suf in enumerate(case["formats"]):
        model_formats.register_model_format(identifier=f"zz-{i}")(make(i, suf))
    names = ["x.one", "x.two", "x.safetensors", "x"]
    for nm in names:
        write_safetensors(root / nm, {"k": torch.full((1,), 1.0)})
    builtin_ = {".safetensors"}

    def readers(nm):
        suf = pathlib.Path(nm).suffix
        return [i for i, f in enumerate(case["formats"]) if suf in f] + (["builtin"] if suf in builtin_ else [])

    for picks in [(a,) for a in names] + list(itertools.product(names, repeat=2)):
        for op in ("merge", "open", "convert"):
            reads.clear()
            n += 1
            nodes = [sd_mecha.model(root / p) for p in picks]
            recipe = nodes[0] if len(nodes) == 1 else sd_mecha.n_average(*nodes)
            legal = all(len(readers(p)) == 1 for p in picks)
            value = lambda p: 1.0 if readers(p)[0] == "builtin" else 10.0 + readers(p)[0]
            where = f"formats match {case['formats']}, {op} of {picks}"
            states.append((str(case["formats"]), picks, op))
            try:
                if op == "merge":
                    got = sd_mecha.merge(recipe, threads=0, tqdm=NoBar, output_dtype=torch.float64, strict_weight_space=False)["k"].item()
                elif op == "open":
                    with sd_mecha.open_input_dicts(recipe):
                        got = sum(nd.state_dict["k"].item() for nd in nodes) / len(nodes)
                else:
                    got = sd_mecha.convert(recipe, "sd1-ldm")
                err = None
            except Exception as e:
                got, err = None, e
            if not legal:
                if not isinstance(err, RuntimeError):
                    bad.append(("format-accepted", f"{where}: {got if err is None else repr(err)}, expected RuntimeError (readers: {[readers(p) for p in picks]})"))
                elif any(len(readers(p)) != 1 and p in [r[1] for r in reads] for p in picks):
                    bad.append(("format-read", f"{where}: an ambiguous or unknown file is read: {reads}"))
            elif op == "convert":
                if not isinstance(err, ValueError):
                    bad.append(("format-convert", f"{where}: {got if err is None else repr(err)}"))  # structural configs cannot be converted
            elif err is not None:
                bad.append(("format-refused", f"{where}: {err!r}"))
            elif abs(got - sum(map(value, picks)) / len(picks)) > 1e-12:
                bad.append(("format-value", f"{where}: {got}"))
            for i, nm, log in reads:
                if i not in readers(nm):
                    bad.append(("format-wrong", f"{where}: {nm} is read by format {i}"))
                if "close" not in log:
                    bad.append(("format-open", f"{where}: the model read by format {i} is not closed"))
    return n, bad, states


PARTS = {"histories": histories, "builtin identifiers": builtin, "redefined methods": redefined, "formats": formats}


def run(ck):
    depth = 5 if ck.thorough else 4
    hist = [list(h) for n in range(1, depth + 1) for h in itertools.product(OPS, repeat=n)]
    size = 240
    ck.rule = "a state is what is registered and the operation applied; every answer is compared with a reference dictionary"
    ck.bounds = {"registries": list(KINDS), "history length": depth, "histories": len(hist)}
    ck.cases("histories", histories, [{"kind": k, "histories": hist[i:i + size]} for k in KINDS for i in range(0, len(hist), size)], chunk=1)
    ck.cases("builtin identifiers", builtin, [{}])
    ops = [["define", *q] for n in range(0, 5 if ck.thorough else 4) for q in itertools.product(("define", "text", "builtin"), repeat=n)]
    ck.cases("redefined methods", redefined, [{"ops": o} for o in ops])
    sets = [[], [".one"], [".two"], [".one", ".two"], [".safetensors"], [".one", ""], [""]]
    combos = [list(c) for n in range(0, 4 if ck.thorough else 3) for c in itertools.product(sets, repeat=n)]
    ck.cases("formats", formats, [{"formats": c} for c in combos], chunk=1)
