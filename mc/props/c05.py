"""C05: model configs survive being written to YAML and read back; user configs work like builtin ones."""
import itertools
from ..env import *
from ..core import h64, scratch, forked, Shard

MC = model_configs
KM, Comp, Impl = MC.KeyMetadata, MC.ModelComponent, MC.ModelConfigImpl


def describe(config):
    """Everything a config says, as plain data."""
    shape = lambda m: None if m.shape is None else tuple(m.shape)
    out = {"id": config.identifier, "arch": config.get_architecture_identifier(), "impl": config.get_implementation_identifier(), "components": []}
    for c, comp in config.components().items():
        out["components"].append((c, [(k, shape(m), m.dtype, tuple(m.aliases), bool(m.optional)) for k, m in comp.keys().items()]))
    out["keys"] = [(k, shape(m), m.dtype, tuple(m.aliases), bool(m.optional)) for k, m in config.keys().items()]
    out["metadata"] = [(k, shape(m), m.dtype) for k, m in config.metadata().items()]
    out["aliases"] = [(k, tuple(a)) for k, a in config.aliases().items()]
    return out


def differs(a, b):
    return next((f"{f}: {_first(a[f], b[f])}" for f in a if a[f] != b[f]), None)


def _first(x, y):
    if isinstance(x, list) and isinstance(y, list):
        for p, q in zip(x, y):
            if p != q:
                return f"{p} became {q}"[:300]
        return f"{len(x)} entries became {len(y)}"
    return f"{x} became {y}"


def round_trip(config, s, note):
    want = describe(config)
    s.trace()
    s.step()
    try:
        text = MC.to_yaml(config)
        back = MC.from_yaml(text)
    except Exception as e:
        return s.violation("fails", f"{note}: {e!r}")
    d = differs(want, describe(back))
    if d:
        s.violation("changed", f"{note}: {d}")
    if MC.to_yaml(back) != text:
        s.violation("unstable", f"{note}: writing again gives another text")
    if differs(want, describe(config)):
        s.violation("altered", f"{note}: the config itself changed")


def registered(case, s):
    config = MC.resolve(case["id"])
    if config.identifier != case["id"]:
        s.violation("identifier", f"{case['id']} calls itself {config.identifier}")
    base = case["id"]
    if describe(config)["arch"] != base.split("-")[0] or describe(config)["impl"] != base.split("-")[1]:
        s.violation("identifier", f"{case['id']}: architecture {describe(config)['arch']}, implementation {describe(config)['impl']}")
    s.states.add(h64(case["id"]))
    round_trip(config, s, case["id"])
    s.sample(case)


NAMES = ["k", "a.b.weight", "0", "1.5", "true", "null", "~", "1e3", "a: b", "# x", "é", "-", "- a", "a\nb", "'", '"', "shape", "dtype", "", " x ", "{}", "[a]", "a,b",
         "&a", "*a", "!!str", "%", "@", "`", "|", ">", "?", ":", "\t", "0x10", "0o7", "2001-01-01", "yes", "=", "<<", "a" * 200, "\\n", "\u2028", "\x7f", "😀"]
SHAPES = [None, [], [0], [1], [2, 3], [2 ** 40, 1], [1, 1, 1, 1, 1]]
DTYPES = [None] + list(DT.values())
ALIASES = [(), ["x"], ["x", "y.z"], ["null"], ["true", "1"]]


def build(case, style):
    """The config of a case, from plain data or from objects."""
    comps = {}
    for c, keys in case["components"]:
        entry = {}
        for k, shape, dtype, aliases, optional in keys:
            dtype = None if dtype is None else DT[dtype]
            if style == "plain":
                meta = {"shape": shape, "dtype": None if dtype is None else str(dtype).split(".")[1]}
                if aliases:
                    meta["aliases"] = list(aliases)
                if optional:
                    meta["optional"] = True
            elif style == "objects":
                meta = KM(None if shape is None else torch.Size(shape), dtype, tuple(aliases), optional)
            else:
                meta = KM(shape, None if dtype is None else str(dtype).split(".")[1], aliases=list(aliases), optional=optional)
            entry[k] = meta
        comps[c] = Comp(entry) if style == "objects" else entry
    return Impl(case["id"], comps) if style != "plain" else Impl(identifier=case["id"], components=comps)


def grammar(cases, s):
    for case in cases["batch"]:
        for style in ("plain", "objects", "mixed"):
            s.trace()
            config = build(case, style)
            want = [(c, [(k, None if sh is None else tuple(sh), None if dt is None else DT[dt], tuple(al), bool(op)) for k, sh, dt, al, op in keys])
                    for c, keys in case["components"]]
            got = describe(config)
            if got["components"] != want or got["id"] != case["id"]:
                s.violation("construction", f"{case} built from {style}: {got['components']}")
            flat = [x for _, ks in want for x in ks]
            if len({x[0] for x in flat}) == len(flat) and got["keys"] != flat:
                s.violation("construction", f"keys() of {case} built from {style}: {got['keys']}")
            s.states.add(h64(repr(case)))
            round_trip(config, s, f"{case} built from {style}")
    s.sample(cases["batch"][0])


GOOD_IDS = ["a-b", "a.b-c_d", "x+y-z", "0-1", "a_b.c+d-e", "_-.", "sd9-ldm_lycoris_lora2"]
BAD_IDS = ["", "a", "-", "a-", "-b", "A-b", "a-B", "a b-c", "a-b c", "a-b-c", "a/b-c", "a-b\n", "\na-b", "é-b", "a--b", "structural", "infer", "a-b!", "a:b-c", "a=b-c", "a-b\u0663", '"a-b"']


def _registry(case):
    s = Shard()
    s.case = case["_case"]
    one = {"c": {"k": {"shape": [1], "dtype": "float32"}}}
    for i in GOOD_IDS:
        s.trace()
        s.states.add(h64(("id", i)))
        c = Impl(i, one)
        if not MC.from_yaml(MC.to_yaml(c)).identifier == i:
            s.violation("identifier", i)
    for i in BAD_IDS:
        s.trace()
        s.states.add(h64(("id", i)))
        try:
            Impl(i, one)
            s.violation("invalid-identifier", f"{i!r} is accepted as an identifier")
        except ValueError:
            pass
        try:
            MC.from_yaml(MC.to_yaml(Impl("a-b", one)).replace("a-b", repr(i)))
            s.violation("invalid-identifier", f"{i!r} is accepted as an identifier in yaml")
        except Exception:
            pass
    before = {c.identifier: id(c) for c in MC.get_all()}
    for first in ("register", "register_aux"):
        for second in ("register", "register_aux"):
            ident = f"dup_{first}_{second}-n"
            c = Impl(ident, one)
            getattr(MC, first)(c)
            for again in (c, Impl(ident, {})):
                s.trace()
                try:
                    getattr(MC, second)(again)
                    s.violation("duplicate", f"{second} accepts an identifier known to {first}")
                except ValueError:
                    pass
            if MC.resolve(ident) is not c:
                s.violation("duplicate", "the registered config was replaced")
    for ident in before:
        for f in (MC.register, MC.register_aux):
            s.trace()
            try:
                f(Impl(ident, one))
                s.violation("duplicate", f"{ident} is registered again")
            except ValueError:
                pass
            if id(MC.resolve(ident)) != before[ident]:
                s.violation("duplicate", f"{ident} was replaced")
    now = [c.identifier for c in MC.get_all()]
    if len(set(now)) != len(now) or set(now) != set(before) | {f"dup_{a}_{b}-n" for a in ("register", "register_aux") for b in ("register", "register_aux")}:
        s.violation("registry", "the set of registered configs is wrong")
    for bad in ("nope", "a-b", "", "structural", "sd1", "SD1-LDM"):
        s.trace()
        try:
            MC.resolve(bad)
            s.violation("resolve", f"{bad!r} resolves")
        except ValueError:
            pass
    s.case = None
    return s


def registry(case, s):
    s.merge(forked(_registry, {"_case": s.case}))


def _user(case):
    """A user config in a process of its own: recognised, merged with, aliases found, optional keys optional."""
    s = Shard()
    s.case = case["_case"]
    root = pathlib.Path(case["root"])
    ident = "user_x-y"
    keys = {f"p.{i}.w": {"shape": [2], "dtype": "float32"} for i in range(8)}
    keys["al"] = {"shape": [], "dtype": "float16", "aliases": ["al.old", "al.older"]}
    keys["opt"] = {"shape": [1], "dtype": "float32", "optional": True}
    ema = {"ema.e": {"shape": [1], "dtype": "float32", "optional": True}}
    config = Impl(ident, {"net": keys, "ema": ema})
    text = MC.to_yaml(config)
    if case["kind"] == "yaml":
        config = MC.from_yaml(text)
    elif case["kind"] == "file":
        path = root / f"{ident}.yaml"
        path.write_text(text)
        config = MC.YamlModelConfig(path)
    elif case["kind"] == "lazy":
        class Lazy(MC.LazyModelConfigBase):
            identifier = ident

            def create_config(self):
                return MC.from_yaml(text)
        config = Lazy()
    getattr(MC, case["register"])(config)
    full = {k: torch.full(m.shape, float(i), dtype=torch.float64) for i, (k, m) in enumerate(MC.resolve(ident).keys().items())}
    variants = {"full": full, "no optional": {k: v for k, v in full.items() if k not in ("opt", "ema.e")}, "extra": {**full, "other": torch.ones(1)},
                "alias": {("al.old" if k == "al" else k): v for k, v in full.items()}, "last alias": {("al.older" if k == "al" else k): v for k, v in full.items()},
                "lacks": {k: v for k, v in full.items() if k != "p.3.w"}}
    for vname, sd in variants.items():
        write_safetensors(root / "v.safetensors", sd)
        for how in ("memory", "path", "explicit", "explicit path", "object", "infer"):
            node = {"memory": lambda: sd_mecha.model(sd), "path": lambda: sd_mecha.model(root / "v.safetensors"), "explicit": lambda: sd_mecha.model(sd, ident),
                    "explicit path": lambda: sd_mecha.model(root / "v.safetensors", ident), "object": lambda: sd_mecha.model(sd, MC.resolve(ident)),
                    "infer": lambda: sd_mecha.model(sd, "infer")}[how]
            for check in (False, True):
                s.trace()
                s.step()
                s.states.add(h64((case["kind"], case["register"], vname, how, check)))
                where = f"{case['kind']}/{case['register']}, {vname} as {how}"
                with sd_mecha.open_input_dicts(node()) as opened:
                    got = opened.model_config.identifier
                if got != ident:
                    s.violation("inference", f"{where}: recognised as {got}")
                try:
                    out = sd_mecha.merge(node(), merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, total_buffer_size=4096, tqdm=NoBar, check_mandatory_keys=check)
                except RuntimeError as e:
                    if not (check and vname == "lacks"):
                        s.violation("merge", f"{where}: {e}")
                    continue
                if check and vname == "lacks":
                    s.violation("mandatory", f"{where}: a missing key is accepted")
                want = {k: v for k, v in full.items() if k != "ema.e" and (k in sd or k == "al")}
                if prints(out) != prints(want):
                    s.violation("merge", f"{where}: keys {sorted(set(out) ^ set(want))} or values differ")
    try:
        two = sd_mecha.n_average(sd_mecha.model(full, ident), sd_mecha.model(full, "sd1-ldm"))
        two.model_config
        s.violation("conflict", "a user config combines with a builtin one")
    except ValueError:
        pass
    text1 = sd_mecha.serialize(sd_mecha.model("m.safetensors", ident))
    if sd_mecha.deserialize(text1).model_config.identifier != ident:
        s.violation("serialize", "the user config is lost in the serialized recipe")
    s.case = None
    return s


def user(case, s):
    s.merge(forked(_user, dict(case, root=scratch(), _case=s.case)))
    s.sample(case)


PARTS = {"registered": registered, "grammar": grammar, "registry": registry, "user": user}


def run(ck):
    ck.rule = "a state is one config; everything it says is compared before and after writing and reading it"
    every = [c.identifier for c in MC.get_all()]
    ck.bounds = {"registered configs": len(every), "names": len(NAMES), "components": 2, "keys per component": 2}
    ck.cases("registered", registered, [{"id": i} for i in every], chunk=1)
    entries = [("k", sh, DT_REV.get(dt), al, op) for sh in SHAPES for dt in DTYPES for al in ALIASES for op in (False, True)]
    cases = [{"id": "a-b", "components": [["c", [e]]]} for e in entries]
    cases += [{"id": "a-b", "components": [["c", [(n, [1], "F32", [], False)]]]} for n in NAMES]
    cases += [{"id": "a-b", "components": [[n, [("k", [1], "F32", [], False)]]]} for n in NAMES]
    cases += [{"id": "a-b", "components": [["c", [("k", [1], "F32", [n], False)]]]} for n in NAMES]
    cases += [{"id": i, "components": [["c", [("k", [1], "F32", [], False)]]]} for i in GOOD_IDS + ["1-2", "1.5-2.5", "1_0-1", "0.1-0", "2001-01"]]
    few = [("k", [], "F16", [], False), ("l", [2, 2], "BF16", ["x"], True), ("m", None, None, [], False), ("shape", [3], "I64", [], False), ("dtype", [3], "U8", [], True)]
    comps = [[]] + [[e] for e in few] + [list(p) for p in itertools.permutations(few, 2)]
    cases += [{"id": "a-b", "components": []}]
    cases += [{"id": "a-b", "components": [["c", c], ["d", d]]} for c in comps for d in comps]
    if ck.thorough:
        cases += [{"id": "a-b", "components": [["c", [e, ("l",) + f[1:]]]]} for e in entries[::3] for f in entries[::7]]
        cases += [{"id": "a-b", "components": [[m, [(n, [1], "F32", [], False)]]]} for n in NAMES for m in NAMES]
    ck.cases("grammar", grammar, [{"batch": cases[i:i + 50]} for i in range(0, len(cases), 50)], chunk=1)
    ck.cases("registry", registry, [{}])
    ck.cases("user", user, [{"kind": k, "register": r} for k in ("object", "yaml", "file", "lazy") for r in ("register", "register_aux")], chunk=1)
