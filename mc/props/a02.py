"""A02: merge spaces are inferred and enforced by the declared rules."""
import itertools
from ..env import *
from ..core import h64

P, Rt, Tn, SD = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor, sd_mecha.StateDict
Symbol = merge_spaces.MergeSpaceSymbol
SP = ("weight", "delta", "param")
DECLS = ["none", "weight", "delta", "param", "wd", "wdp", "S", "T", "float", "default"]
RETURNS = ["none", "weight", "delta", "param", "S", "T"]
SYMBOLS = {"S": ("weight", "delta"), "T": ("weight", "delta", "param")}


def ident(space):
    return getattr(space, "identifier", space)


def declare(decls, var, ret, shape):
    """A method with one positional parameter per declaration, the last one variadic or keyword-only if asked."""
    ns = {"P": P, "Rt": Rt, "Tn": Tn, "SD": SD, "S": Symbol("weight", "delta"), "T": Symbol("weight", "delta", "param")}
    ty = {"tensor": "Tn", "state": "SD[Tn]"}[shape]
    ann = {"none": f"P({ty})", "weight": f"P({ty}, 'weight')", "delta": f"P({ty}, 'delta')", "param": f"P({ty}, 'param')", "wd": f"P({ty}, ('weight', 'delta'))",
           "wdp": f"P({ty}, ('weight', 'delta', 'param'))", "S": f"P({ty}, S)", "T": f"P({ty}, T)", "float": "P(float)", "default": f"P({ty}) = 1.0"}
    parts = []
    for i, d in enumerate(decls):
        last = i == len(decls) - 1
        if last and var == "var":
            parts.append("*v: " + ann[d])
        elif last and var == "kw":
            parts += ["*", f"kw: {ann[d]}"]
        else:
            parts.append(f"p{i}: {ann[d]}")
    r = {"none": "Rt(Tn)", "S": "Rt(Tn, S)", "T": "Rt(Tn, T)"}.get(ret, f"Rt(Tn, '{ret}')")
    src = f"def f({', '.join(parts)}) -> {r}:\n    return 0"
    exec(src, ns)
    return ns["f"], src.splitlines()[0]


def reference(decls, spaces, ret):
    """The merge space of the recipe, or None when it must be refused. decls[i] declares the operand in spaces[i]."""
    bound = {}
    for d, sp in zip(decls, spaces):
        if d == "none":
            allowed, sym = SP, "default"
        elif d in ("float", "default"):
            allowed, sym = ("param",), None
        elif d in SYMBOLS:
            allowed, sym = SYMBOLS[d], d
        else:
            allowed, sym = {"wd": ("weight", "delta"), "wdp": SP}.get(d, (d,)), None
        if sp not in allowed:
            return None
        if sym is not None and bound.setdefault(sym, sp) != sp:
            return None
    if ret in SP:
        return ret
    if ret in SYMBOLS:
        return bound.get(ret)
    if "default" in bound:
        return bound["default"]
    sets = {("param",) if d in ("float", "default") else (d,) for d in decls}
    if len(sets) == 1 and next(iter(sets))[0] in SP:
        return next(iter(sets))[0]
    return None


def operand(space, shape):
    return sd_mecha.literal(1.5, merge_space=space) if shape == "literal" else sd_mecha.model("x.safetensors", merge_space=space)


def signatures(case, s):
    decls, var, shape = case["decls"], case["var"], case["shape"]
    for ret in RETURNS:
        try:
            fn, src = declare(decls, var, ret, shape)
        except SyntaxError:
            return
        s.trace()
        try:
            method = sd_mecha.merge_method(fn, identifier="a02", register=False)
        except (TypeError, RuntimeError) as e:
            s.count("declarations refused")
            # only two reasons: an unused symbol as output, or nothing at all to take it from
            if not (ret in SYMBOLS and ret not in decls):
                s.violation("declaration-refused", f"{src} is refused: {e}")
            continue
        n = len(decls)
        counts = [n] if var != "var" else [n - 1, n, n + 1]
        for c in counts:
            eff = (decls + [decls[-1]])[:c]
            for spaces in itertools.product(SP, repeat=c):
                ops = [operand(sp, ("literal", "model")[i % 2]) for i, sp in enumerate(spaces)]
                want = reference(eff, spaces, ret)
                if var == "var" and c < n and ret == "none" and not eff:
                    want = None
                s.trace()
                s.step()
                s.states.add(h64((tuple(decls), var, ret, spaces, want)))
                try:
                    node = method(*ops[:-1], kw=ops[-1]) if var == "kw" else method(*ops)
                    got = ident(node.merge_space)
                except Exception as e:
                    got, err = None, e
                if c < n and want is None and ret == "none" and var == "var":
                    # the missing variadic operand still counts as a declaration: either reading is a refusal or an inference
                    continue
                if ret == "none" and c < n:
                    continue
                if got != want:
                    s.violation("wrong-space" if got and want else "accepted" if got else "refused",
                                f"{src} on operands in {spaces}: {got or 'refused: ' + repr(err)}, expected {want or 'a refusal'}")
                    continue
                s.count("accepted" if want else "refused")
                if want is None and not isinstance(err, (TypeError, ValueError, RuntimeError, KeyError, StopIteration)):
                    s.violation("odd-error", f"{src} on {spaces}: {err!r}")
    s.sample({"declarations": decls, "last": var})


W, D, Pm = SP
X = "X"
BUILTIN = {  # operand spaces (X: one common space), output space
    "weighted_sum": ([X, X, Pm], X), "slerp": ([X, X], X), "subtract": ([W, W], D), "add_difference": ([W, D, Pm], W), "perpendicular_component": ([X, X], X),
    "geometric_sum": ([X, X, Pm], X), "add_cosine_a": ([W, W, Pm], W), "add_cosine_b": ([W, W, Pm], W), "tensor_sum": ([X, X, Pm, Pm], X), "top_k_tensor_sum": ([X, X, Pm, Pm], X),
    "train_difference_mask": ([X, X, X, Pm], Pm), "add_opposite_mask": ([X, X, X, Pm], Pm), "add_strict_opposite_mask": ([X, X, X, Pm], Pm), "select_max_delta": ([D, D, Pm], D),
    "select_max_white_delta": ([D, D, Pm], D), "multiply_quotient": ([X, X, X, Pm], X), "crossover": ([X, X, Pm, Pm], X), "rotate": ([X, X, Pm, Pm], X),
    "clamp": ([X, X, X], X), "copy_distribution": ([X], X), "ties_sum": ([D, D], D), "ties_sum_extended": ([D, D], D), "dropout": ([D, D], D), "ties_sum_with_dropout": ([D, D], D),
    "model_stock": ([D, D], D), "geometric_median": ([X, X], X), "n_average": ([X, X, X], X), "truncate_rank": ([D, Pm], D), "fallback": ([X, X], X), "cast": ([X, Pm, Pm], X),
    "get_dtype": ([X], Pm), "get_device": ([X], Pm), "pick_component": ([X, Pm], X), "omit_component": ([X, Pm], X), "exchange_ema": ([X], X),
}


def builtins(case, s):
    name = case["name"]
    decl, ret = BUILTIN[name]
    method = merge_methods.resolve(name)
    for spaces in itertools.product(SP, repeat=len(decl)):
        common = {sp for d, sp in zip(decl, spaces) if d == X}
        ok = len(common) <= 1 and all(d == X or d == sp for d, sp in zip(decl, spaces))
        want = (next(iter(common)) if ret == X else ret) if ok else None
        s.trace()
        s.step()
        s.states.add(h64((name, spaces)))
        try:
            got = ident(method(*[operand(sp, "literal") for sp in spaces]).merge_space)
        except (TypeError, ValueError, RuntimeError):
            got = None
        if got != want:
            s.violation("builtin", f"{name} on operands in {spaces}: {got or 'refused'}, expected {want or 'a refusal'}")


def wrappers(case, s):
    sm = sd_mecha
    base_ok = lambda sp: sp[0] == W and all(x in (W, D) for x in sp[1:]) and len(sp) > 1
    allw = lambda sp: W if set(sp) == {W} else None
    table = [
        ("add_difference", 2, lambda o: sm.add_difference(*o), lambda sp: W if sp == (W, D) else None),
        ("add_difference clamp", 2, lambda o: sm.add_difference(*o, clamp_to_ab=True), lambda sp: None),
        ("add_difference c", 3, lambda o: sm.add_difference(*o), allw),
        ("add_difference c clamp", 3, lambda o: sm.add_difference(*o, clamp_to_ab=True), allw),
        ("add_perpendicular", 3, lambda o: sm.add_perpendicular(*o), allw),
        ("copy_region", 2, lambda o: sm.copy_region(*o), lambda sp: sp[0] if len(set(sp)) == 1 else None),
        ("copy_region c", 3, lambda o: sm.copy_region(*o), allw),
        ("tensor_sum top_k", 2, lambda o: sm.tensor_sum(*o, top_k=True), lambda sp: sp[0] if len(set(sp)) == 1 else None),
        ("rotate", 2, lambda o: sm.rotate(*o), lambda sp: sp[0] if len(set(sp)) == 1 else None),
        ("rotate c", 3, lambda o: sm.rotate(*o), allw),
        ("dropout", 3, lambda o: sm.dropout(*o), allw),
    ] + [(name, n, (lambda o, f=getattr(sm, name): f(*o)), lambda sp: W if base_ok(sp) else None)
         for name in ("add_difference_ties", "add_difference_ties_extended", "ties_with_dare", "n_model_stock") for n in (2, 3)]
    ops = [("+", 2, lambda o: o[0] + o[1], lambda sp: W if sorted(sp) == [D, W] else None),
           ("-", 2, lambda o: o[0] - o[1], lambda sp: D if sp == (W, W) else None),
           ("|", 2, lambda o: o[0] | o[1], lambda sp: sp[0] if sp[0] == sp[1] else None),
           ("r+", 2, lambda o: {"k": 1.0} + o[1], lambda sp: W if False else None),
           ("r-", 2, lambda o: 1.0 - o[1], lambda sp: None),
           ("r|", 2, lambda o: {"k": 1.0} | o[1] if False else o[1].__ror__({"k": 1.0}), lambda sp: Pm if sp[1] == Pm else None),
           ("dict |", 2, lambda o: {"k": 1.0} | o[1], lambda sp: Pm if sp[1] == Pm else None),
           ("+ number", 2, lambda o: o[0] + 1.0, lambda sp: None),
           ("| number", 2, lambda o: o[0] | 1.0, lambda sp: Pm if sp[0] == Pm else None)]
    for name, n, call, rule in table + ops:
        for spaces in itertools.product(SP, repeat=n):
            for kind in ("literal", "model"):
                o = [operand(sp, kind) for sp in spaces]
                want = rule(spaces)
                s.trace()
                s.step()
                s.states.add(h64((name, spaces)))
                try:
                    node = call(o)
                    got = ident(node.merge_space)
                except (TypeError, ValueError, RuntimeError):
                    got = None
                if got != want:
                    s.violation("wrapper", f"{name} on operands in {spaces}: {got or 'refused'}, expected {want or 'a refusal'}")
                elif name == "+" and got:
                    w = o[spaces.index(W)]
                    if node.args[0] is not w or node.merge_method.identifier != "add_difference":
                        s.violation("operator", f"+ on {spaces} does not add the delta to the weights")
                elif name in ("-", "|") and got and (node.args[0] is not o[0] or node.args[1] is not o[1]):
                    s.violation("operator", f"{name} on {spaces} swaps its operands")
                elif name in ("r|", "dict |") and got and (node.args[1] is not o[1] or getattr(node.args[0], "value", None) != {"k": 1.0}):
                    s.violation("operator", f"{name} on {spaces} swaps its operands")
                elif name == "| number" and got and (node.args[0] is not o[0] or getattr(node.args[1], "value", None) != 1.0):
                    s.violation("operator", f"{name} on {spaces} swaps its operands")
    # the operators on plain dictionaries of tensors, by value
    low, high = {"k": torch.tensor([1.0, 2.0])}, {"k": torch.tensor([10.0, 20.0])}
    run = lambda r, **kw: sd_mecha.merge(r, strict_weight_space=False, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, tqdm=NoBar, **kw)["k"].tolist()
    for sp in SP:
        m = lambda d, x=sp: sd_mecha.model(d, None, x)
        values = [("|", lambda: m(low) | m(high), [1.0, 2.0]), ("|", lambda: m(high) | m(low), [10.0, 20.0]),
                  ("| missing", lambda: sd_mecha.model({"k": low["k"], "l": low["k"]}, None, sp) | m(high), [1.0, 2.0])]
        if sp == Pm:
            values += [("dict |", lambda: low | m(high), [1.0, 2.0]), ("| dict", lambda: m(high) | low, [10.0, 20.0])]
        if sp == W:
            values += [("-", lambda: m(high) - m(low), [9.0, 18.0]), ("+", lambda: m(high) + m(low, D), [11.0, 22.0]), ("reversed +", lambda: m(low, D) + m(high), [11.0, 22.0]),
                       ("- -", lambda: m(low) - m(high), [-9.0, -18.0])]
        for name, make, want in values:
            s.trace()
            s.states.add(h64((name, sp)))
            got = run(make())
            if got != want:
                s.violation("operator", f"{name} on {sp} models gives {got}, expected {want}")


def strict(case, s):
    t = {"k": torch.ones(2)}
    for space in SP:
        for wrap in ("root", "cast", "average", "fallback", "dict"):
            m = sd_mecha.model(t, None, space)
            r = {"root": lambda: m, "cast": lambda: m.to(dtype="float32"), "average": lambda: sd_mecha.n_average(m, m), "fallback": lambda: m | m, "dict": lambda: sd_mecha.literal({"k": m})}[wrap]()
            for strictness in (True, False, ...):
                for threads in (0, 1):
                    for fb in (None, m):
                        s.trace()
                        s.step()
                        s.states.add(h64((space, wrap, strictness)))
                        want = space == W or strictness is False
                        try:
                            out = sd_mecha.merge(r, strict_weight_space=strictness, threads=threads, fallback_model=fb, tqdm=NoBar)
                            got = True
                        except ValueError:
                            got = False
                        if got != want:
                            s.violation("strict", f"a recipe in {space} space ({wrap}), strict_weight_space={strictness}: {'accepted' if got else 'refused'}")
    # python literals are in param space unless said otherwise
    for v in (t, {"k": 1.0}, 1.0):
        for strictness in (True, ...):
            s.trace()
            try:
                sd_mecha.merge(v, strict_weight_space=strictness, tqdm=NoBar)
                s.violation("strict", f"a plain {type(v).__name__} passes a strict merge")
            except ValueError:
                pass
            except AttributeError:
                pass  # a number alone is not a recipe with keys


def identities(case, s):
    """Declared spaces given as strings, objects and iterables mean the same; unknown ones are refused."""
    obj = {x: merge_spaces.resolve(x) for x in SP}
    for form in ("str", "obj", "list", "objs"):
        for sp in SP:
            v = {"str": sp, "obj": obj[sp], "list": [sp], "objs": {obj[sp]}}[form]
            def f(a: P(Tn, v)) -> Rt(Tn, sp if form in ("str", "list") else obj[sp]):
                return a
            mm = sd_mecha.merge_method(f, register=False)
            for o in SP:
                s.trace()
                s.states.add(h64((form, sp, o)))
                try:
                    got = ident(mm(operand(o, "model")).merge_space)
                except TypeError:
                    got = None
                if got != (sp if o == sp else None):
                    s.violation("form", f"space declared as {v!r}: operand in {o} gives {got}")
    for bad in ("nope", ("weight", "nope")):
        s.trace()
        try:
            P(Tn, bad)
            s.violation("unknown-space", f"{bad!r} is accepted as a merge space")
        except ValueError:
            pass
    for where in ("model", "literal"):
        try:
            (sd_mecha.model("x", merge_space="nope") if where == "model" else sd_mecha.literal(1.0, merge_space="nope"))
            s.violation("unknown-space", f"{where} accepts an unknown merge space")
        except ValueError:
            pass
    # parameters with defaults are param parameters
    for sp in ("weight", "delta", ("weight", "param")):
        for where in ("positional", "keyword"):
            s.trace()
            try:
                if where == "positional":
                    def g(a: P(Tn), b: P(Tn, sp) = 1.0) -> Rt(Tn):
                        return a
                else:
                    def g(a: P(Tn), *, b: P(Tn, sp) = 1.0) -> Rt(Tn):
                        return a
                sd_mecha.merge_method(g, register=False)
                s.violation("default-space", f"a defaulted {where} parameter in {sp} is accepted")
            except TypeError:
                pass


PARTS = {"signatures": signatures, "builtins": builtins, "wrappers": wrappers, "strict": strict, "identities": identities}


def run(ck):
    ck.rule = "each (signature, operand spaces) pair is built with the real library and compared with a declarative reference; states are distinct pairs with their verdicts"
    depth = 3
    decls = DECLS if ck.thorough else ["none", "weight", "delta", "wd", "S", "T", "float", "default"]
    ck.bounds = {"parameters": depth, "declarations": decls, "returns": RETURNS}
    sigs = []
    for n in range(1, depth + 1):
        for d in itertools.product(decls, repeat=n):
            for var in ("no", "var", "kw"):
                if var == "var" and d[-1] in ("default", "float") or "default" in d[:-1] and d[-1] != "default" and var == "no":
                    continue
                for shape in ("tensor", "state") if ck.thorough or n < 3 else ("tensor",):
                    sigs.append({"decls": list(d), "var": var, "shape": shape})
    ck.cases("signatures", signatures, sigs, chunk=20)
    ck.cases("builtins", builtins, [{"name": n} for n in BUILTIN])
    ck.cases("wrappers", wrappers, [{}])
    ck.cases("strict", strict, [{}])
    ck.cases("identities", identities, [{}])
