"""A01: calling a merge method binds arguments as Python would (all bounded signatures and call shapes)."""
import inspect
import itertools
import pathlib
from ..env import *
from ..core import h64
from ..recipes import value

P, Rt, Tn = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor


def signatures(thorough):
    for npos in range(0, 4 if not thorough else 5):
        for ndef in range(0, npos + 1):
            for var in (False, True):
                for kreq in range(0, 3 if thorough else 2):
                    for kdef in range(0, 3 if thorough else 2):
                        for varkw in (False, True):
                            if npos + var + kreq + kdef:
                                yield [npos, ndef, var, kreq, kdef, varkw]


def build(sig, types="float"):
    npos, ndef, var, kreq, kdef, varkw = sig
    ann = {"float": "P(float)", "tensor": 'P(Tn, "param")', "state": 'P(SD[Tn], "param")'}[types]
    parts = []
    for i in range(npos):
        parts.append(f"p{i}: {ann}" + (f" = {100 + i}.0" if i >= npos - ndef else ""))
    if var:
        parts.append(f"*rest: {ann}")
    if kreq + kdef:
        if not var:
            parts.append("*")
        # interleave, defaults first: keyword-only parameters need no order
        for i in range(kdef):
            parts.append(f"d{i}: {ann} = {200 + i}.0")
        for i in range(kreq):
            parts.append(f"k{i}: {ann}")
    if varkw:
        parts.append("**kwargs")
    src = f"def f({', '.join(parts)}) -> Rt(Tn, 'param'):\n    return 0"
    ns = {"P": P, "Rt": Rt, "Tn": Tn, "SD": sd_mecha.StateDict}
    exec(src, ns)
    fn = ns["f"]
    ref = inspect.signature(fn)
    ref = ref.replace(parameters=[p for p in ref.parameters.values() if p.kind is not p.VAR_KEYWORD])
    return fn, ref, src


def expect(ref, args, kwargs):
    b = ref.bind(*args, **kwargs)
    b.apply_defaults()
    return list(b.args), dict(b.kwargs)


def same(node, v):
    if isinstance(v, recipe_nodes.RecipeNode):
        return node is v
    if isinstance(v, pathlib.Path):
        return isinstance(node, recipe_nodes.ModelRecipeNode) and node.path == v
    return isinstance(node, recipe_nodes.LiteralRecipeNode) and value(node.value) == value(v)


def calls(case, s):
    sig = case["sig"]
    try:
        fn, ref, src = build(sig, case["types"])
        method = sd_mecha.merge_method(fn, identifier="a01", register=False)
    except TypeError as e:
        s.violation("declaration", f"{sig}: the declaration is refused: {e}")
        return
    names = [f"p{i}" for i in range(sig[0])] + [f"d{i}" for i in range(sig[4])] + [f"k{i}" for i in range(sig[3])]
    unknown = ["zz", "rest", "key"] if case["full"] else ["zz", "rest"]
    for npos in range(0, sig[0] + 3):
        for r in range(0, len(names) + 1):
            for sub in itertools.combinations(names, r):
                for extra in [()] + [(u,) for u in unknown]:
                    args = [float(i + 1) for i in range(npos)]
                    kw = {n: 50.0 + i for i, n in enumerate(reversed(sub + extra))}
                    s.trace()
                    s.step()
                    try:
                        want = expect(ref, args, kw)
                    except TypeError:
                        want = None
                    before = (list(args), dict(kw))
                    try:
                        node = method(*args, **kw)
                    except TypeError as e:
                        node = None
                    except Exception as e:
                        s.violation("wrong-error", f"{src.splitlines()[0]} called with {args} {kw} raises {e!r}")
                        continue
                    if (args, kw) != before:
                        s.violation("mutated", "the caller's arguments were modified")
                    s.states.add(h64((tuple(sig), npos, sub, extra, want is None)))
                    if want is None and node is None:
                        s.count("rejected")
                        continue
                    if want is None:
                        s.violation("accepted-ill-formed", f"{src.splitlines()[0]} called with {args} {kw} is accepted")
                        continue
                    if node is None:
                        s.violation("rejected-well-formed", f"{src.splitlines()[0]} called with {args} {kw} is rejected")
                        continue
                    s.count("accepted")
                    if len(node.args) != len(want[0]) or not all(same(n, v) for n, v in zip(node.args, want[0])):
                        s.violation("positional", f"{src.splitlines()[0]} called with {args} {kw}: operands {[getattr(n, 'value', n) for n in node.args]}, expected {want[0]}")
                    if set(node.kwargs) != set(want[1]) or not all(same(node.kwargs[k], v) for k, v in want[1].items()):
                        s.violation("keyword", f"{src.splitlines()[0]} called with {args} {kw}: operands {({k: getattr(n, 'value', n) for k, n in node.kwargs.items()})}, expected {want[1]}")
                    if node.merge_method is not method:
                        s.violation("method", "the recipe uses another method")
    s.sample({"signature": src.splitlines()[0]})


def kinds(case, s):
    """Operands of every kind keep their identity, in every position."""
    fn, ref, src = build(case["sig"], case["types"])
    method = sd_mecha.merge_method(fn, identifier="a01", register=False)
    m = sd_mecha.model("x.safetensors", merge_space="param")
    pool = [m, sd_mecha.literal(4.0), 1.5, 2, True, "text", {"k": 1.0}, {}, torch.ones(2), None, {"k": torch.ones(1)}, {"k": m}]
    if case["types"] != "float":
        pool.append(pathlib.Path("y.safetensors"))
    npos = case["sig"][0]
    for combo in itertools.product(range(len(pool)), repeat=2):
        a, b = pool[combo[0]], pool[combo[1]]
        for args, kw in (([a, b], {}), ([a], {"p1": b}), ([], {"p1": a, "p0": b}), ([a, b, a, b], {}), ([a, b], {"d0": a, "k0": b}), ([], {"p0": a, "k0": b})):
            try:
                want = expect(ref, args, kw)
            except TypeError:
                continue
            s.trace()
            s.step()
            s.states.add(h64((combo, len(args), tuple(kw))))
            try:
                node = method(*args, **kw)
            except Exception as e:
                if isinstance(a, pathlib.Path) or isinstance(b, pathlib.Path):
                    if case["types"] == "float":
                        continue
                if any(isinstance(x, pathlib.Path) for x in (a, b)) and isinstance(e, TypeError) and "merge space" in str(e):
                    continue  # a path is in weight space
                s.violation("operand-kind", f"{src.splitlines()[0]} called with {args} {kw} raises {e!r}")
                continue
            got = list(node.args), dict(node.kwargs)
            if not all(same(n, v) for n, v in zip(*map(list, (got[0], want[0])))) or not all(same(got[1][k], v) for k, v in want[1].items()):
                s.violation("operand-value", f"{src.splitlines()[0]} called with {args} {kw}: {got}")


def builtin(case, s):
    """Every registered method: all positional/keyword splits of a full call bind the same."""
    for mm in merge_methods.get_all():
        fn = mm.__wrapped__
        ref = inspect.signature(fn)
        ref = ref.replace(parameters=[p for p in ref.parameters.values() if p.kind is not p.VAR_KEYWORD])
        names = mm.get_param_names()
        inputs = mm.get_input_merge_spaces().as_dict()
        configs = mm.get_input_configs().as_dict()

        def operand(i, k):
            sp = inputs[k]
            sp = sorted((getattr(sp, "merge_spaces", None) or sp), key=lambda x: x.identifier)
            return sd_mecha.model(f"m{i}.safetensors", configs[k], sp[-1])

        n = len(names.args) or 1
        pool = [operand(i, i if i < len(names.args) else len(names.args)) for i in range(n)]
        # the same space everywhere where spaces are shared symbols
        for split in range(0, n + 1):
            if split < n and not names.args:
                continue
            args = pool[:split]
            kw = {names.args[i]: pool[i] for i in range(split, n)}
            kw |= {k: operand(9, k) for k in names.kwargs if ref.parameters[k].default is ref.empty}
            s.trace()
            s.step()
            s.states.add(h64((mm.identifier, split)))
            want = expect(ref, args, kw)
            try:
                node = mm(*args, **kw)
            except Exception as e:
                s.violation("builtin", f"{mm.identifier} with {split} positional operands raises {e!r}")
                continue
            if not all(same(a, v) for a, v in zip(node.args, want[0])) or len(node.args) != len(want[0]) or not all(same(node.kwargs[k], v) for k, v in want[1].items()) or len(node.kwargs) != len(want[1]):
                s.violation("builtin", f"{mm.identifier} with {split} positional operands binds {node.args} {node.kwargs}")
            for bad_args, bad_kw in (([*args, *([pool[0]] * (0 if names.has_varargs() else n + 1 - split))], kw) if not names.has_varargs() else (None, None),
                                     (args, {**kw, "no_such_parameter": 1}), (args, {**kw, names.args[0]: pool[0]}) if names.args and split else (None, None)):
                if bad_args is None:
                    continue
                s.trace()
                try:
                    mm(*bad_args, **bad_kw)
                except TypeError:
                    continue
                except Exception as e:
                    s.violation("builtin-error", f"{mm.identifier}: {e!r}")
                else:
                    s.violation("builtin-accepts", f"{mm.identifier} accepts {len(bad_args)} positional and {sorted(bad_kw)}")


PARTS = {"calls": calls, "kinds": kinds, "builtin": builtin}


def run(ck):
    ck.rule = "every call shape of every signature is made on the real method; the oracle is inspect.Signature.bind; states are (signature, call shape, accepted) triples"
    ck.bounds = {"positional": 3 + ck.thorough, "keyword-only": "2+2" if ck.thorough else "1+1", "call": "up to positional+2 positional arguments and every subset of names, plus an unknown one"}
    sigs = list(signatures(ck.thorough))
    ck.cases("calls", calls, [{"sig": g, "types": t, "full": ck.thorough} for g in sigs for t in ("float", "tensor", "state")], chunk=2)
    ks = [[2, 0, False, 0, 0, False], [2, 1, False, 1, 1, True], [2, 0, True, 1, 1, False], [0, 0, True, 1, 0, False], [1, 0, True, 0, 1, True], [2, 2, False, 0, 1, False]]
    ck.cases("kinds", kinds, [{"sig": g, "types": t} for g in ks for t in ("float", "tensor", "state")], chunk=1)
    ck.cases("builtin", builtin, [{}])
