"""A04: merge method declarations are accepted exactly when they are well-formed."""
import itertools
import typing
from typing import Optional, TypeVar
from ..env import *

P, Rt, Tn, SD, T = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor, sd_mecha.StateDict, merge_methods.T
Symbol = merge_spaces.MergeSpaceSymbol
X, Y = "zzd-x", "zzd-y"
REFUSALS = (TypeError, ValueError, RuntimeError, AssertionError)


def ensure_configs():
    for n in (X, Y):
        try:
            model_configs.register(model_configs.ModelConfigImpl(n, {"c": {"k": {"shape": [2], "dtype": "float32"}}}))
        except ValueError:
            pass


# annotation -> (source, well-formed, only 'param' space without a default, same with a default, config, symbol)
ANN = {
    "tensor": ("P(Tn)", True, False, True, None, None),
    "state dict": ("P(SD[Tn])", True, False, True, None, None),
    "any": ("P(T)", True, False, True, None, None),
    "float": ("P(float)", True, True, True, None, None),
    "string": ("P(str)", True, True, True, None, None),
    "param": ("P(Tn, 'param')", True, True, True, None, None),
    "weight": ("P(Tn, 'weight')", True, False, False, None, None),
    "weight or param": ("P(Tn, ('weight', 'param'))", True, False, False, None, None),
    "symbol": ("P(Tn, S)", True, False, False, None, "S"),
    "other symbol": ("P(Tn, S2)", True, False, False, None, "S2"),
    "config": ("P(Tn, model_config=X)", True, False, True, X, None),
    "config, param": ("P(Tn, 'param', X)", True, True, True, X, None),
    "other config": ("P(SD[Tn], 'weight', Y)", True, False, False, Y, None),
    "optional": ("Optional[P(float)]", True, True, True, None, None),
    "optional config": ("Optional[P(Tn, 'weight', X)]", True, False, False, X, None),
    "optional type": ("Optional[float]", False, None, None, None, None),
    "bare": ("P", False, None, None, None, None),
    "missing": (None, False, None, None, None, None),
    "type": ("Tn", False, None, None, None, None),
    "number": ("float", False, None, None, None, None),
    "return": ("Rt(Tn)", False, None, None, None, None),
    "text": ("'float'", False, None, None, None, None),
}
RET = {  # -> (source, well-formed, config, symbol)
    "tensor": ("Rt(Tn)", True, None, None),
    "weight": ("Rt(Tn, 'weight')", True, None, None),
    "symbol": ("Rt(Tn, S)", True, None, "S"),
    "config": ("Rt(Tn, model_config=X)", True, X, None),
    "other config": ("Rt(Tn, 'delta', Y)", True, Y, None),
    "symbol, config": ("Rt(Tn, S, X)", True, X, "S"),
    "bare": ("Rt", False, None, None),
    "missing": (None, False, None, None),
    "type": ("Tn", False, None, None),
    "parameter": ("P(Tn)", False, None, None),
}


def names_space():
    return {"Optional": Optional, "P": P, "Rt": Rt, "Tn": Tn, "SD": SD, "T": T, "X": X, "Y": Y, "S": Symbol("weight", "delta"), "S2": Symbol("weight", "delta")}


def build(params, ret, varkw, name):
    """params: (kind, annotation, has a default)"""
    ns, parts, star = names_space(), [], False
    for i, (kind, ann, default) in enumerate(params):
        src = ANN[ann][0]
        a = f": {src}" if src else ""
        d = " = 1.0" if default else ""
        if kind == "var":
            parts.append(f"*p{i}{a}")
            star = True
        elif kind == "kw":
            if not star:
                parts.append("*")
                star = True
            parts.append(f"p{i}{a}{d}")
        else:
            parts.append(f"p{i}{a}{d}")
    if varkw:
        parts.append("**kwargs")
    r = RET[ret][0]
    src = f"def {name}({', '.join(parts)}){' -> ' + r if r else ''}:\n    return 1.0"
    exec(src, ns)
    return ns[name], src.splitlines()[0]


def well_formed(params, ret):
    _, ok, rconf, rsym = RET[ret]
    if not ok or not all(ANN[a][1] for _, a, _ in params):
        return False
    if any(d and not ANN[a][3] for _, a, d in params):
        return False
    if rconf is None and all(ANN[a][4] for _, a, _ in params):
        return False
    return rsym is None or any(ANN[a][5] == rsym for _, a, _ in params)


def convertible(params, ret):
    positional = [p for p in params if p[0] != "kw"]
    first = [p for p in params if p[0] == "pos"] or [p for p in params if p[0] == "var"]
    if not well_formed(params, ret) or len(first) != 1 or ANN[first[0][1]][4] is None or RET[ret][2] is None:
        return False
    if len(positional) > 1:
        return None  # one positional and a variadic parameter: not stated
    if first[0][2] or any(k == "kw" and not d for k, _, d in params):
        return None  # cannot be called by a conversion: not stated
    return True


def registry():
    return {m.identifier: id(m) for m in merge_methods.get_all()}, sorted((m.identifier, id(m)) for m in merge_methods.get_all_converters())


def forget(name):
    for reg in (getattr(merge_methods, "_merge_methods_registry", {}), getattr(merge_methods, "_conversion_registry", {})):
        reg.pop(name, None)


def declare(fn, how, name, register, conversion):
    kw = {}
    if not register:
        kw["register"] = False
    if conversion:
        kw["is_conversion"] = True
    if how == "identifier":
        kw["identifier"] = name
    if how == "bare":
        return sd_mecha.merge_method(fn)
    return sd_mecha.merge_method(**kw)(fn) if how != "called" else sd_mecha.merge_method(fn, **kw)


def signatures(case, s):
    ensure_configs()
    for params in case["signatures"]:
        for ret in case["returns"]:
            for register, conversion, how in case["options"]:
                name = "zzd_probe"
                ident = "zzd other id" if how == "identifier" else name
                try:
                    fn, src = build(params, ret, case["varkw"], name)
                except (SyntaxError, TypeError):
                    continue
                want = well_formed(params, ret)
                if conversion:
                    want = convertible(params, ret) and register if convertible(params, ret) is not None and register else None if register else False
                before = registry()
                s.trace()
                s.state((str(params), ret, register, conversion, how))
                where = f"{src} register={register} is_conversion={conversion} ({how})"
                try:
                    if how == "identifier":
                        method = sd_mecha.merge_method(fn, identifier=ident, register=register, is_conversion=conversion)
                    else:
                        method = declare(fn, how, name, register, conversion)
                    err = None
                except Exception as e:
                    method, err = None, e
                after = registry()
                s.step()
                try:
                    if err is not None:
                        if not isinstance(err, REFUSALS):
                            s.violation("odd-error", f"{where}: {err!r}")
                        elif want:
                            s.violation("refused", f"{where} is well-formed and refused: {err!r}")
                        if after != before:
                            s.violation("registered", f"{where} is refused ({err!r}), but the registered methods changed: {sorted(set(after[0]) - set(before[0]))} {after[1][-1:]}")
                        continue
                    if want is False:
                        s.violation("accepted", f"{where} is not well-formed and accepted")
                        continue
                    if method.identifier != ident:
                        s.violation("identifier", f"{where}: identifier {method.identifier}")
                    wanted = dict(before[0]) | ({ident: id(method)} if register else {})
                    convs = sorted(before[1] + ([(ident, id(method))] if conversion and register else []))
                    if after != (wanted, convs):
                        s.violation("registry", f"{where}: registered {sorted(set(after[0]) - set(before[0]))}, conversions {[c for c in after[1] if c not in before[1]]}")
                    elif register and merge_methods.resolve(ident) is not method:
                        s.violation("resolve", f"{where}: resolve gives {merge_methods.resolve(ident)}")
                    if conversion and want:
                        usable(params, ret, method, where, s)
                finally:
                    forget(ident)
    s.sample({"signature": case["signatures"][0], "returns": case["returns"][:2]})


def usable(params, ret, method, where, s):
    """An accepted conversion is found by convert."""
    first = next(p for p in params if p[0] != "kw")
    src, dst = ANN[first[1]][4], RET[ret][2]
    space = {"param": "param"}.get("param" if ANN[first[1]][0].find("'param'") >= 0 else "", "weight")
    node = sd_mecha.literal({"k": torch.ones(2)}, src, space)
    try:
        method(node)
    except Exception:
        return  # its merge space cannot be inferred, say: nothing to do with conversions
    try:
        got = sd_mecha.convert(node, dst)
    except Exception as e:
        s.violation("unusable", f"{where} is registered as a conversion and convert fails: {e!r}")
        return
    if src != dst and not (isinstance(got, recipe_nodes.MergeRecipeNode) and got.merge_method is method):
        s.violation("unused", f"{where}: convert gives {got}")


def others(case, s):
    """Conversions that already work still do after any sequence of declarations, accepted or refused."""
    ensure_configs()
    node = sd_mecha.literal({"k": torch.ones(2)}, X, "weight")
    for seq in case["sequences"]:
        s.trace()
        s.state(str(seq))
        ok = False
        log = []
        for i, (params, ret) in enumerate(seq):
            fn, src = build(params, ret, False, f"zzd_m{i}")
            try:
                sd_mecha.merge_method(fn, is_conversion=True)
                log.append("accepted " + src)
                ok = ok or ANN[params[0][1]][4] == X and RET[ret][2] == Y
            except Exception as e:
                log.append("refused " + src)
            s.step()
            try:
                got = sd_mecha.convert(node, Y)
            except ValueError as e:
                got = None
            except Exception as e:
                s.violation("convert", f"after {log}: convert raises {e!r}")
                break
            if (got is not None) != ok:
                s.violation("convert", f"after {log}: convert gives {got}")
        for i in range(len(seq)):
            forget(f"zzd_m{i}")


TYPES = {
    "Tensor": (Tn, True), "float": (float, True), "int": (int, True), "str": (str, True), "bool": (bool, True), "NoneType": (type(None), True), "T": (T, True),
    "StateDict": (SD, "in"), "StateDict[Tensor]": (SD[Tn], "in"), "StateDict[T]": (SD[T], "in"), "TypeVar": (TypeVar("Z"), True), "Optional[str]": (Optional[str], "in"), "Optional[Tensor]": (Optional[Tn], "in"),
    "dict": (dict, False), "list": (list, False), "bytes": (bytes, False), "complex": (complex, False), "object": (object, False), "tuple": (tuple, False), "list[int]": (list[int], False), "dict[str, Tensor]": (dict[str, Tn], False),
    "module": (torch.nn.Module, False), "Parameter": (torch.nn.Parameter, True), "set": (set, False),
}
SPACES = {"none": (None, True), "weight": ("weight", True), "delta": ("delta", True), "param": ("param", True), "unknown": ("zz-space", False), "object": (merge_spaces.resolve("delta"), True),
          "two": (("weight", "param"), "in"), "two objects": ([merge_spaces.resolve("weight"), merge_spaces.resolve("param")], "in"), "one unknown": (("weight", "zz-space"), False), "symbol": (Symbol("weight"), True), "generator": ("gen", "in")}
CONFIGS = {"none": (None, True), "name": (X, True), "object": ("obj", True), "unknown": ("zz-config", False), "structural": ("structural", False), "structural object": ("sobj", False)}


def annotations(case, s):
    ensure_configs()
    for (tn, (ty, tok)), (sn, (sp, sok)), (cn, (cf, cok)) in itertools.product(TYPES.items(), SPACES.items(), CONFIGS.items()):
        if sp == "gen":
            sp = (x for x in ("weight", "delta"))
        if cf == "obj":
            cf = model_configs.resolve(X)
        if cf == "sobj":
            cf = model_configs.StructuralModelConfig({})
        for what in ("in", "out"):
            if what == "out" and ("in" in (tok, sok) or isinstance(sp, tuple)):
                continue
            want = all(v is True or v == what for v in (tok, sok, cok))
            s.trace()
            s.state((tn, sn, cn, what))
            s.step()
            where = f"{'Parameter' if what == 'in' else 'Return'}({tn}, {sn}, {cn})"
            if sn == "generator":
                sp = (x for x in ("weight", "delta"))
            try:
                got = (P if what == "in" else Rt)(ty, sp, cf)
            except Exception as e:
                if want:
                    s.violation("refused", f"{where}: {e!r}")
                elif not isinstance(e, (TypeError, ValueError)):
                    s.violation("odd-error", f"{where}: {e!r}")
                continue
            if not want:
                s.violation("accepted", f"{where} is accepted")
                continue
            if what != "in" or tn == "NoneType":
                continue
            # what a method says of the declaration
            fn = lambda a, b: 1.0
            fn.__annotations__ = {"a": got, "b": P(Tn), "return": Rt(Tn, "weight")}
            m = sd_mecha.merge_method(fn, identifier="zzd_a", register=False)
            spaces = m.get_input_merge_spaces().args[0]
            spaces = set(getattr(spaces, "merge_spaces", spaces))
            literal = tn in ("float", "int", "str", "bool", "Optional[str]")
            expect = {"none": {"param"} if literal else {"weight", "delta", "param"}, "weight": {"weight"}, "delta": {"delta"}, "param": {"param"}, "object": {"delta"}, "two": {"weight", "param"},
                      "two objects": {"weight", "param"}, "symbol": {"weight"}, "generator": {"weight", "delta"}}[sn]
            if {x.identifier for x in spaces} != expect:
                s.violation("spaces", f"{where}: spaces {spaces}, expected {expect}")
            conf = m.get_input_configs().args[0]
            if getattr(conf, "identifier", None) != (X if cf is not None else None):
                s.violation("config", f"{where}: config {conf}")


PARTS = {"signatures": signatures, "conversions stay usable": others, "annotations": annotations}


def run(ck):
    one = [[(k, a, d)] for k in ("pos", "var", "kw") for a in ANN for d in (False, True) if not (k == "var" and d)]
    few = list(ANN) if ck.thorough else ["tensor", "float", "param", "weight", "symbol", "other symbol", "config", "other config", "bare", "missing"]
    two = [[(k1, a, d1), (k2, b, d2)] for k1, k2 in (("pos", "pos"), ("pos", "var"), ("pos", "kw"), ("var", "kw"), ("kw", "kw")) for a in few for b in few
           for d1 in (False, True) for d2 in (False, True) if not (k1 == "var" and d1 or k2 == "var" and d2 or k1 == k2 == "pos" and d1 and not d2)]
    three = ["tensor", "config", "symbol", "bare"] if not ck.thorough else ["tensor", "config", "other config", "symbol", "weight", "bare", "float"]
    triples = [[("pos", a, False), (k, b, k == "kw"), ("kw", c, c == "tensor")] for a in three for b in three for c in three for k in ("pos", "kw", "var")]
    triples = [[(k, a, d and k != "var") for k, a, d in t] for t in triples]
    full = [(True, False, "bare"), (True, False, "called"), (False, False, "called"), (True, True, "called"), (True, True, "decorator"), (False, True, "decorator"), (True, False, "identifier"), (True, True, "identifier")]
    some = [(True, False, "bare"), (False, False, "called"), (True, True, "decorator")]
    cases = [{"signatures": one[i:i + 8], "returns": list(RET), "options": full, "varkw": v} for i in range(0, len(one), 8) for v in (False, True)]
    cases += [{"signatures": two[i:i + 40], "returns": list(RET), "options": some, "varkw": False} for i in range(0, len(two), 40)]
    cases += [{"signatures": triples[i:i + 40], "returns": list(RET), "options": some, "varkw": True} for i in range(0, len(triples), 40)]
    ck.rule = "a state is (signature, return declaration, options); acceptance and the registries are compared with the stated rules"
    ck.bounds = {"annotations": list(ANN), "returns": list(RET), "signatures": len(one) + len(two) + len(triples)}
    ck.cases("signatures", signatures, cases, chunk=1)
    decl = [([(k, a, False)], r) for k in ("pos", "var") for a in ("tensor", "config", "other config", "bare", "float") for r in ("tensor", "config", "other config", "bare")]
    decl += [([("pos", a, False), (k, b, d)], r) for a in ("config", "tensor") for k, b, d in (("pos", "config", False), ("kw", "float", True), ("var", "config", False)) for r in ("tensor", "other config")]
    depth = 3 if ck.thorough else 2
    seqs = [list(q) for n in range(1, depth + 1) for q in itertools.product(decl if n < 3 else decl[::4], repeat=n)]
    ck.cases("conversions stay usable", others, [{"sequences": seqs[i:i + 60]} for i in range(0, len(seqs), 60)], chunk=1)
    ck.cases("annotations", annotations, [{}])
