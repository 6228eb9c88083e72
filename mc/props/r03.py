"""R03: recipe text is parsed by its grammar or rejected (all bounded texts, all single edits), against a reference parser."""
import itertools
import pathlib
import re
from ..env import *
from ..core import scratch, h64
from ..recipes import abstract, value

P, Rt, Tn = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor
ANY = ("weight", "delta", "param")


@sd_mecha.merge_method
def r03_m(a: P(Tn, ANY), b: P(Tn, ANY) if False else P(Tn, "param") = 1.0, *, c: P(float) = 2.0, s: P(str) = None) -> Rt(Tn, "weight"):
    return a


@sd_mecha.merge_method
def r03_v(*m: P(Tn, ANY), k: P(Tn, ANY)) -> Rt(Tn, "delta"):
    return m[0]


METHODS = {"r03_m", "r03_v"}
SPACES = {s.identifier for s in sd_mecha.extensions.merge_spaces.get_all()}


class Reject(Exception):
    pass


class DontCare(Exception):
    """The format gives this text no definite meaning: anything but a crash of the interpreter is fine."""


# ------------------------------------------------------------- the reference parser
def ref_tokens(line):
    """[(keyword or None, kind, content)] by the format: bare tokens and quoted strings with backslash escapes."""
    out, i, n = [], 0, len(line)
    while i < n:
        if line[i] == " ":
            i += 1
            continue
        j = i
        while j < n and line[j] not in ' "\\':
            j += 1
        bare = line[i:j]
        if j < n and line[j] == "\\":
            raise DontCare
        if j < n and line[j] == '"':
            if bare and (not bare.endswith("=") or bare.count("=") != 1 or bare == "="):
                balance(line[j:])
                raise DontCare
            s, j = [], j + 1
            while True:
                if j >= n:
                    raise Reject("unbalanced quotes")
                c = line[j]
                if c == "\\":
                    j += 1
                    if j >= n:
                        raise Reject("unbalanced quotes")
                    if line[j] not in '\\"nr':
                        esc = True
                    s.append({"n": "\n", "r": "\r"}.get(line[j], line[j]))
                elif c == '"':
                    break
                else:
                    s.append(c)
                j += 1
            j += 1
            if j < n and line[j] != " ":
                balance(line[j:])
                raise DontCare
            out.append((bare[:-1] or None, "str", "".join(s)))
        else:
            if "=" in bare:
                k, _, v = bare.partition("=")
                out.append((k, "bare", v))
            else:
                out.append((None, "bare", bare))
        i = j
    return out


def balance(rest):
    if len(re.findall(r'(?<!\\)"', re.sub(r"\\.", "", rest))) % 2:
        raise Reject("unbalanced quotes")


def ref_value(kind, text, results):
    if kind == "str":
        return ("v", text)
    if text in ("null", "true", "false"):
        return ("v", {"null": None, "true": True, "false": False}[text])
    if text.startswith("&"):
        if re.fullmatch(r"(0|[1-9][0-9]*)", text[1:]):
            k = int(text[1:])
            if k >= len(results):
                raise Reject("reference out of bounds")
            return results[k]
        if re.fullmatch(r"-[0-9]+", text[1:]) and int(text[1:]) < 0:
            raise Reject("reference out of bounds")
        try:
            int(text[1:])
        except ValueError:
            raise Reject("bad reference")
        raise DontCare
    if re.fullmatch(r"[+-]?[0-9]+", text):
        return ("v", int(text))
    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", text) or re.fullmatch(r"[+-]?(inf|nan|infinity)", text.lower()):
        return ("v", float(text))
    for kind in (int, float):
        try:
            kind(text)
        except ValueError:
            continue
        raise DontCare
    raise Reject(f"bad value {text}")


def lit(v, conf=None, space="param"):
    return ("literal", v, conf, space)


def as_node(r):
    """What a result means when used as an operand."""
    if r[0] == "v":
        return lit(value(r[1]))
    if r[0] == "d":
        kinds = {kind_of(x) for x in r[1].values()}
        if len(kinds) > 1 or kinds - {"num", "str", "none", "node", "bool"}:
            raise DontCare if "bool" in kinds or "none" in kinds else Reject("inconsistent dict")
        if kinds == {"node"}:
            confs = {conf_of(x) for x in r[1].values()}
            spaces = {space_of(x) for x in r[1].values()}
            if len(confs) > 1 or len(spaces) > 1:
                raise Reject("inconsistent dict of nodes")
            return lit(("dict", tuple((k, x) for k, x in r[1].items())), confs.pop(), spaces.pop())
        return lit(("dict", tuple((k, value(x[1])) for k, x in r[1].items())))
    return r


def kind_of(x):
    if x[0] == "v":
        v = x[1]
        return "none" if v is None else "bool" if isinstance(v, bool) else "num" if isinstance(v, (int, float)) else "str"
    return "node" if x[0] in ("literal", "model", "merge") else "dict"


def conf_of(x):
    if x[0] == "merge":
        for a in x[2] + tuple(v for _, v in x[3]):
            if conf_of(a) is not None:
                return conf_of(a)
        return None
    return x[2]


def space_of(x):
    return {"r03_m": "weight", "r03_v": "delta"}[x[1]] if x[0] == "merge" else x[3]


def ref_parse(text):
    lines = text.split("\n")
    if lines[0].strip() != lines[0] and lines[0].strip() == "version 0.1.0":
        raise DontCare
    if lines[0] != "version 0.1.0":
        raise Reject("version")
    results = []
    late = None
    for raw in lines[1:]:
        line = raw.strip()
        if not line or line.startswith("#"):
            continue
        toks = ref_tokens(line)
        head = toks[0]
        pending_kw = [t for t in toks[1:] if t[0] is not None]
        if head[0] is not None or head[1] == "str":
            raise Reject("unknown command")
        command = head[2]
        pos, kw = [], {}
        for k, kind, content in toks[1:]:
            v = ref_value(kind, content, results)
            if k is None:
                pos.append(v)
            else:
                if k in kw:
                    raise DontCare
                kw[k] = v
        if command == "dict":
            if pos:
                raise DontCare
            results.append(("d", kw))
        elif command in ("literal", "model"):
            if len(pos) != 1 or set(kw) - {"model_config", "merge_space"}:
                raise Reject("arguments") if not set(kw) & {"value", "path"} else DontCare
            conf, space = kw.get("model_config", ("v", None)), kw.get("merge_space", ("v", "weight" if command == "model" else None))
            if conf[0] != "v" or not (conf[1] is None or isinstance(conf[1], str)):
                raise DontCare
            if space[0] != "v" or not (space[1] is None or isinstance(space[1], str)):
                raise DontCare
            if conf[1] is not None and conf[1] not in CONFIGS:
                raise Reject("unknown config")
            if space[1] is not None and space[1] not in SPACES:
                raise Reject("unknown space")
            if command == "model":
                if pos[0][0] != "v" or not isinstance(pos[0][1], str):
                    raise Reject("path")
                if space[1] is None or "\x00" in pos[0][1]:
                    raise DontCare
                results.append(("model", str(pathlib.Path(pos[0][1])), conf[1], space[1]))
            else:
                if pos[0][0] == "v":
                    v, c, sp = value(pos[0][1]), None, "param"
                elif pos[0][0] == "d":
                    kinds = {kind_of(x) for x in pos[0][1].values()}
                    if "node" in kinds or "dict" in kinds:
                        if kinds != {"node"}:
                            raise DontCare
                        _, v, c, sp = as_node(pos[0])
                        if conf[1] not in (None, c):
                            raise Reject("configs of the nodes differ")
                    else:
                        v, c, sp = ("dict", tuple((k, value(x[1])) for k, x in pos[0][1].items())), None, "param"
                else:
                    raise DontCare
                results.append(("literal", v, conf[1] or c, space[1] or sp))
        elif command == "merge":
            if not pos or pos[0][0] != "v" or not isinstance(pos[0][1], str):
                raise Reject("method")
            if pos[0][1] not in METHODS:
                raise Reject("unknown method") if pos[0][1] not in ALL_METHODS else DontCare
            results.append(bind(pos[0][1], [x for x in pos[1:]], kw))
        else:
            raise Reject("unknown command")
    if not results:
        raise Reject("no instruction")
    return as_node(results[-1])


def bind(method, pos, kw):
    kw = dict(kw)
    if method == "r03_m":
        names = ["a", "b"]
        if len(pos) > 2 or set(kw) - {"a", "b", "c", "s"}:
            raise Reject("arguments")
        for n in names[:len(pos)]:
            if n in kw:
                raise Reject("multiple values")
        a = dict(zip(names, pos))
        a.update({n: kw.pop(n) for n in names if n in kw})
        if "a" not in a:
            raise Reject("missing argument")
        a.setdefault("b", ("v", 1.0))
        kw.setdefault("c", ("v", 2.0))
        kw.setdefault("s", ("v", None))
        args = [as_node(a["a"]), as_node(a["b"])]
        params = [args[1], as_node(kw["c"]), as_node(kw["s"])]
        nodes = args + params[1:]
        for p in params:
            if space_of(p) != "param":
                raise Reject("merge space")
    else:
        if set(kw) != {"k"}:
            raise Reject("arguments")
        args = [as_node(x) for x in pos]
        nodes = args + [as_node(kw["k"])]
    if len({conf_of(n) for n in nodes} - {None}) > 1:
        raise Reject("incompatible configs")
    return ("merge", method, tuple(args), tuple(sorted((k, as_node(v)) for k, v in kw.items())))


CONFIGS = {c.identifier for c in model_configs.get_all()} | {"infer"}
ALL_METHODS = {m.identifier for m in merge_methods.get_all()}


# ------------------------------------------------------------- comparison
def outcome(fn, *a):
    try:
        r = fn(*a)
    except RecursionError:
        raise
    except Exception as e:
        return ("rejected", type(e).__name__)
    if not isinstance(r, recipe_nodes.RecipeNode):
        return ("not a recipe", repr(r)[:100])
    return ("accepted", abstract(r))


def check(text, s, forms=True):
    s.trace()
    s.step()
    got = outcome(sd_mecha.deserialize, text)
    try:
        want = ("accepted", ref_parse(text))
    except Reject as e:
        want = ("rejected", str(e))
    except DontCare:
        want = None
        s.count("unspecified")
    if want is not None:
        s.count(want[0])
        s.states.add(h64(want))
        if want[0] != got[0]:
            s.violation(f"{want[0]}-but-{got[0]}", f"{text!r}: the format says {want}, the parser says {got}")
            return
        if want[0] == "accepted" and want[1] != got[1]:
            s.violation("different", f"{text!r}: parsed as {got[1]} instead of {want[1]}")
            return
    elif got[0] == "not a recipe":
        s.violation("not-a-recipe", f"{text!r}: the parser returns {got[1]}")
    if forms:
        lines = text.split("\n")
        for name, form in (("list", list(lines)), ("lines with terminators", [l + "\n" for l in lines[:-1]] + [lines[-1]])):
            other = outcome(sd_mecha.deserialize, form)
            if other[0] != got[0] or other[0] == "accepted" and other != got:
                s.violation("forms-differ", f"{text!r}: as a string {got}, as a {name} {other}")
        if "\r" not in text:
            path = pathlib.Path(scratch()) / "r03.mecha"
            path.write_text(text)
            other = outcome(sd_mecha.deserialize_path, path)
            if other[0] != got[0] or other[0] == "accepted" and other != got:
                s.violation("forms-differ", f"{text!r}: as a string {got}, as a file {other}")


V = "version 0.1.0"
LINES = [
    "", "  ", "# comment \"", 'model "a.safetensors" model_config=null merge_space="weight"', 'model "b"', 'model "c d=e" merge_space="delta"', "model", "model b", 'model "x" "y"',
    'model "a" model_config="sd1-ldm"', 'model "a" model_config="nope"', 'model "a" merge_space="nope"', 'model 3', "literal 1", 'literal "a=b" merge_space="weight"', "literal",
    "literal 1 2", "literal &0 merge_space=\"delta\"", "dict", "dict a=1", "dict a=&0 b=&0", "dict a=&0 b=&1", 'dict a=1 b="x"', 'dict a="x=y" b="\\""', "dict a=true", "dict a=null",
    'merge "r03_m" &0', 'merge "r03_m" &0 &1', 'merge "r03_m" &0 0.5 c=3 s="z z"', 'merge "r03_m"', 'merge "r03_m" &0 1 2', 'merge "r03_m" &0 a=&0', 'merge "r03_m" a=&0 b=2', 'merge "r03_m" &0 x=1',
    'merge "r03_v" k=1', 'merge "r03_v" &0 &0 k=&1', 'merge "r03_v" &0', 'merge "no_such_method" &0', "merge r03_m &0", "merge", 'merge "r03_m" &1', 'merge "r03_m" &2', 'merge "r03_m" &-1',
    "unknown 1", '"model" "a"', 'model "a', 'merge "r03_m" "a" s=nul', "version 0.1.0", '  model   "a"   merge_space="param"  ', "\tliteral inf", "literal -inf", "literal nan", "literal 1e5", "literal +1",
    "literal 1_0", "literal 0x10", "literal 1e400", "literal -0.0", 'literal "" model_config=null', "&0", "literal &", "literal &0x",
]
TOKENS = ['"r03_m"', '"r03_v"', "&0", "&1", "&2", "&9", "&-1", "&", "1", "-1.5", "1e3", "null", "true", "True", '"s"', '"a=b"', '""', '"x', "a=&0", "b=1", 'c=2', 's="q r"', "k=&1", 'x="', "=1", "inf", "\\", "#"]
VALID = [
    V + '\nmodel "a.safetensors" model_config=null merge_space="weight"\nmodel "b" model_config="sd1-ldm" merge_space="delta"\nmerge "r03_m" &0 0.5 c=1e-06 s="x \\"y\\" \\\\ \\n="',
    V + '\ndict a=1 b=-2.5\nliteral &0 model_config="sd1-ldm" merge_space="weight"\nmerge "r03_v" &1 &1 k=&1',
    V + '\n# note\nliteral "s=1" merge_space="param"\nmerge "r03_m" a=&0 b=2\nmerge "r03_v" &1 k=null',
    V + '\nmodel "m"\ndict x=&0 y=&0\nliteral inf\nmerge "r03_m" &1 &2 s="&0"',
]
CHARS = ' "\\&=#-.0179aenx\n\t_\''


def line_texts(case, s):
    n = 0
    for combo in itertools.product(range(len(LINES)), repeat=case["extra"]):
        lines = [LINES[i] for i in case["first"]] + [LINES[i] for i in combo]
        n += 1
        check("\n".join([V] + lines), s, forms=case["forms"])
    s.sample({"first": [LINES[i] for i in case["first"]], "texts": n})


def versions(case, s):
    for v in ["version 0.1.0", "version 0.1.1", "version", "", " version 0.1.0", "version 0.1.0 ", "version  0.1.0", "version 0.1", "version 0.1.0.0", "version 0.1.00", "Version 0.1.0", "version 1.1.0", "version 0.1.0x",
              "version 0.1.0 # c", "#", "model \"a\"", "version\t0.1.0", "versionn 0.1.0", "version 0.2.0", "version 00.1.0", "version \"0.1.0\""]:
        for rest in ([], ["literal 1"], [""], ['model "a"', 'merge "r03_m" &0']):
            check("\n".join([v] + rest), s)


def token_texts(case, s):
    pre = V + '\nmodel "a"\nliteral 2\n'
    for depth in range(0, case["depth"]):
        for combo in itertools.product(TOKENS, repeat=depth):
            check(pre + " ".join([case["head"], case["second"], *combo]), s, forms=False)
    s.sample({"line": f"{case['head']} {case['second']} ...", "depth": case["depth"]})


def char_edits(case, s):
    t = VALID[case["i"]]
    check(t, s)
    p = case["p"]
    if p < len(t):
        check(t[:p] + t[p + 1:], s)
        for c in CHARS:
            check(t[:p] + c + t[p + 1:], s)
            if case["double"]:
                for q in range(p + 1, len(t)):
                    check(t[:p] + c + t[p + 1:q] + t[q + 1:], s, forms=False)
        if p + 1 < len(t):
            check(t[:p] + t[p + 1] + t[p] + t[p + 2:], s)
    for c in CHARS:
        check(t[:p] + c + t[p:], s)
    check(t[:p], s)
    check(t[p:], s)


def token_edits(case, s):
    lines = VALID[case["i"]].split("\n")
    for li in range(1, len(lines)):
        toks = lines[li].split(" ")
        for k in range(len(toks)):
            for new in [None] + TOKENS + ["literal", "model", "dict", "merge", 'model_config="sdxl-sgm"', 'merge_space="weight"', 'merge_space="bad"', 'model_config="bad"']:
                for ins in (False, True):
                    edited = toks[:k] + ([] if new is None else [new]) + toks[k + (0 if ins else 1):]
                    check("\n".join(lines[:li] + [" ".join(edited)] + lines[li + 1:]), s)
        check("\n".join(lines[:li] + lines[li + 1:]), s)
        check("\n".join(lines[:li] + [lines[li]] + lines[li:]), s)
        for lj in range(1, len(lines)):
            sw = list(lines)
            sw[li], sw[lj] = sw[lj], sw[li]
            check("\n".join(sw), s)


def paths(case, s):
    d = pathlib.Path(scratch())
    good = VALID[0]
    for name, write, want in (("x.mecha", True, "accepted"), ("y.mecha", False, "rejected"), ("z.txt", True, "rejected"), ("w", True, "rejected"), ("v.safetensors", True, "rejected")):
        p = d / f"r03-{name}"
        if write:
            p.write_text(good)
        s.trace()
        got = outcome(sd_mecha.deserialize_path, p)
        s.state(got)
        if got[0] != want:
            s.violation("path", f"{name} (exists: {write}) is {got[0]}, expected {want}")


def long(case, s):
    """Texts of many lines: which line a reference means."""
    n = case["n"]
    if case["kind"] == "models":
        base = [f'model "m{i}"' for i in range(n)]
    elif case["kind"] == "mixed":
        base = [[f'model "m{i}"', f"literal {i}", f"dict a={i} b={i}.5", "# note", "", f'merge "r03_m" &{max(0, (i - 1) * 4 // 6)}'][i % 6] for i in range(n)]
    else:  # each line refers to a previous one
        base = ['model "m"'] + [f'merge "r03_m" &{i // 2} &{i}' if i % 2 or i < 3 else f'merge "r03_v" &{i // 3} &{i - 1} k=&{i}' for i in range(n - 1)]
    refs = sorted({i + d for i in (0, 1, 9, 10, 11, 99, 100, 101, 255, 256, n // 2, n) for d in (-1, 0, 1)} & set(range(-1, n + 2)))
    if case["kind"] == "chain":
        base = base[:14]
        refs = range(-1, 16)
    for i in refs:
        check("\n".join([V, *base, f'merge "r03_m" &{i} &0']), s, forms=False)
        check("\n".join([V, *base, f'merge "r03_v" &0 &{i} k=&{i}']), s, forms=False)
        check("\n".join([V, *base, f"literal &{i} model_config=\"sd1-ldm\""]), s, forms=False)
        check("\n".join([V, *base, f"dict x=&{i}", f'merge "r03_m" &{i}']), s, forms=False)
        check("\n".join([V, *base, f'merge "r03_m" &0{i} &1']), s, forms=False)
    s.sample({**case, "references": len(refs)})


PARTS = {"long": long, "lines": line_texts, "versions": versions, "tokens": token_texts, "char_edits": char_edits, "token_edits": token_edits, "paths": paths}


def run(ck):
    ck.rule = "each text is parsed by the real parser and by a reference parser; states are distinct meanings"
    ck.assumptions = ["texts the format gives no definite meaning (e.g. a backslash outside quotes, quotes glued to other text, non-canonical numerals) may be accepted or rejected"]
    n = len(LINES)
    ck.bounds = {"lines": n, "lines per text": 3, "tokens": len(TOKENS), "tokens per line": 4 if ck.thorough else 3, "edits": "all single characters and tokens"}
    ck.cases("versions", versions, [{}])
    ck.cases("paths", paths, [{}])
    ck.cases("lines", line_texts, [{"first": [i], "extra": e, "forms": True} for e in (0, 1) for i in range(n)], chunk=2)
    if ck.thorough:
        ck.cases("lines3", line_texts, [{"first": [i, j], "extra": 1, "forms": True} for i in range(n) for j in range(n)], chunk=20)
    else:
        ck.cases("lines3", line_texts, [{"first": [i], "extra": 2, "forms": False} for i in range(n)], chunk=1)
    depth = 4 if ck.thorough else 3
    ck.cases("tokens", token_texts, [{"head": h, "second": t, "depth": depth} for h in ("merge", "literal", "model", "dict") for t in TOKENS], chunk=1)
    ck.cases("char_edits", char_edits, [{"i": i, "p": p, "double": ck.thorough} for i, t in enumerate(VALID) for p in range(len(t) + 1)], chunk=8)
    ck.cases("token_edits", token_edits, [{"i": i} for i in range(len(VALID))], chunk=1)
    ck.cases("long", long, [{"kind": k, "n": n} for k, ns in (("models", (10, 11, 30, 101, 300)), ("mixed", (12, 66, 150)), ("chain", (14,))) for n in ns], chunk=1, limit=300)


PARTS["lines3"] = line_texts
