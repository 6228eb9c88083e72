"""M03: errors surface; only a missing key skips a key."""
import concurrent.futures
import itertools
from .. import probes, sched
from ..env import *
from ..core import scratch
from ..probes import P, Rt, Tn, SD

CONFIG = "zzm-e"
KEYS = ["a", "b", "c"]
SHAPE = (2,)


def ensure_config():
    for name, keys in ((CONFIG, KEYS), (CONFIG + "2", KEYS[:2])):
        try:
            model_configs.register(model_configs.ModelConfigImpl(name, {"c": {k: {"shape": list(SHAPE), "dtype": "float32"} for k in keys}}))
        except ValueError:
            pass


class Odd(Exception):
    pass


class OddKey(KeyError):
    pass


class MissingToo(sd_mecha.StateDictKeyError):
    pass


KINDS = {
    "K": KeyError, "R": RuntimeError, "V": ValueError, "T": TypeError, "S": StopIteration, "I": KeyboardInterrupt, "X": SystemExit,
    "C": concurrent.futures.CancelledError, "O": Odd, "k": OddKey, "L": IndexError, "A": AttributeError, "N": NotImplementedError, "F": OSError,
    "G": GeneratorExit, "E": EOFError, "W": concurrent.futures.TimeoutError, "M": MemoryError, "Z": AssertionError,
}


@sd_mecha.merge_method(identifier="mc_outcome")
def mc_outcome(a: P(Tn), spec: P(str), **kwargs) -> Rt(Tn):
    """The outcome `spec` assigns to this key: v a value, m / s the missing key error, otherwise that error."""
    who, _, table = spec.partition(":")
    what = table["abc".index(kwargs["key"])]
    if what == "v":
        return a
    if what == "m":
        raise sd_mecha.StateDictKeyError(kwargs["key"])
    if what == "s":
        raise MissingToo(kwargs["key"])
    raise KINDS[what](f"{who}-{kwargs['key']}")


@sd_mecha.merge_method(identifier="mc_kw")
def mc_kw(a: P(Tn), *, b: P(Tn)) -> Rt(Tn):
    return a + b


def leaf(i, n):
    return sd_mecha.model({k: torch.full(SHAPE, float(i + 1)) for k in KEYS[:n]}, CONFIG + ("2" if n == 2 else ""))


# how each shape combines the outcomes of its operands; lookups name (operand, key)
def both(ops, key, n):
    seen = [ops[i][key] for i in range(len(ops))]
    bad = {(w, key, i) for i, w in enumerate(seen) if w not in "vms"}
    return bad or ("m" if any(w in "ms" for w in seen) else "v")


def first(ops, key, n):
    for i in range(len(ops)):
        w = ops[i][key]
        if w not in "ms":
            return {(w, key, i)} if w != "v" else "v"
    return "m"


def following(ops, key, n):
    return both(ops, (key + 1) % n, n)


def single(ops, key, n):
    return both(ops[:1], key, n)


def total(ops, key, n):
    """mc_total reads every key of operand 0 in turn, after operand 1 at its own key."""
    seen = [(0, k) for k in range(n)] + [(1, key)]
    bad = {(ops[i][k], k, i) for i, k in seen if ops[i][k] not in "vms"}
    if ops[1][key] not in "v":
        return {(ops[1][key], key, 1)} if ops[1][key] not in "ms" else "m"
    for k in range(n):  # the method itself stops at the first
        if ops[0][k] != "v":
            return {(ops[0][k], k, 0)} if ops[0][k] not in "ms" else "m"
    return "v"


ONE = {
    "root": (lambda a: a, single),
    "operand": (lambda a: probes.mc_scale(a), single),
    "deep": (lambda a: probes.mc_scale(probes.mc_scale(a)), single),
    "next": (lambda a: probes.mc_next(a), following),
    "nested next": (lambda a: probes.mc_scale(probes.mc_next(probes.mc_scale(a))), following),
    "shared": (lambda a: sd_mecha.n_average(a, a), single),
}
TWO = {
    "args": (lambda a, b: probes.mc_lin(a, b), both),
    "kwarg": (lambda a, b: mc_kw(a, b=b), both),
    "deeper first": (lambda a, b: probes.mc_lin(probes.mc_scale(a), b), both),
    "deeper last": (lambda a, b: probes.mc_lin(a, probes.mc_scale(b)), both),
    "fallback": (lambda a, b: a | b, first),
    "under fallback": (lambda a, b: probes.mc_lin(a | b, probes.mc_scale(a | b)), first),
    "total": (lambda a, b: probes.mc_total(a, b), total),
    "average": (lambda a, b: sd_mecha.n_average(a, b), both),
}


def build(shape, specs, n):
    table = ONE if len(specs) == 1 else TWO
    ops = [mc_outcome(leaf(i, n), f"{i}:{spec}") for i, spec in enumerate(specs)]
    return table[shape][0](*ops)


def expectation(shape, specs, n):
    rule = (ONE if len(specs) == 1 else TWO)[shape][1]
    out = [rule(specs, k, n) for k in range(n)]
    errors = set().union(*[o for o in out if isinstance(o, set)])
    return errors, {KEYS[k] for k in range(n) if out[k] == "v"}


def attempt(recipe, threads, to_file, **kw):
    path = pathlib.Path(scratch()) / "m03.safetensors"
    opts = dict(threads=threads, total_buffer_size=64, merge_dtype=torch.float32, output_dtype=torch.float32, tqdm=NoBar)
    mine = {}
    try:
        got = sd_mecha.merge(recipe, output=path if to_file else mine, **opts, **kw)
    except BaseException as e:
        if type(e).__name__ in ("CaseTimeout", "Abort"):
            raise
        return e, None
    if to_file:
        return None, set(parse_safetensors(path.read_bytes())[0])
    return None, set(got)


def judge(result, errors, keys):
    error, got = result
    if errors:
        allowed = {(KINDS[w], f"{i}-{KEYS[k]}") for w, k, i in errors}
        if error is None:
            return "swallowed", f"the merge returned keys {sorted(got)} although {sorted(str(a) for a in allowed)} occurred"
        if (type(error), error.args[0] if error.args else None) not in allowed:
            return "replaced", f"the merge raised {error!r} instead of one of {sorted(str(a) for a in allowed)}"
    elif error is not None:
        return "spurious", f"the merge raised {error!r} although only missing keys occurred"
    elif got != keys:
        return "keys", f"keys {sorted(got)} instead of {sorted(keys)}"


def outcomes(case, s):
    ensure_config()
    n = case["n"]
    for specs in case["specs"]:
        errors, keys = expectation(case["shape"], specs, n)
        s.state((case["shape"], tuple(specs)))
        for threads, to_file in case["runs"]:
            s.trace()
            s.step(n)
            bad = judge(attempt(build(case["shape"], specs, n), threads, to_file), errors, keys)
            if bad:
                s.violation(bad[0], f"{case['shape']} {specs} threads={threads} file={to_file}: {bad[1]}")
    s.sample({k: case[k] for k in ("shape", "runs")} | {"specs": case["specs"][-1]})


def schedules(case, s):
    ensure_config()
    n, specs = case["n"], case["specs"]
    errors, keys = expectation(case["shape"], specs, n)

    def run():
        recipe = build(case["shape"], specs, n)
        return lambda: attempt(recipe, case["threads"], case["file"])

    sched.instrument([merging])

    def verdict(res):
        if res.error is not None:
            return "error", repr(res.error)
        return judge(res.value, errors, keys)

    if "schedule" in case:
        r = sched.execute(run(), [tuple(x) for x in case["schedule"]])
        bad = r.problem or verdict(r)
        if bad:
            s.violation(bad[0], bad[1])
        return
    s.count("schedules", sched.explore(run, verdict, s, case["bound"], case["slice"]))
    s.sample({k: case[k] for k in ("shape", "specs", "threads", "bound")})


PARTS = {"outcomes": outcomes, "schedules": schedules}


def batches(specs, size):
    specs = list(specs)
    return [specs[i:i + size] for i in range(0, len(specs), size)]


def run(ck):
    runs = [(0, False), (1, False), (2, False), (None, True), (0, True), (3, True)]
    cases = []
    letters = "vmKRSI" + ("kC" if ck.thorough else "")
    for shape in ONE:
        for b in batches([["".join(t)] for t in itertools.product(letters, repeat=3)], 30):
            cases.append({"shape": shape, "n": 3, "specs": b, "runs": runs[:3] if not ck.thorough else runs})
    # every kind of error at every key of every shape, in memory and to a file
    for shape in ONE:
        for w in ["s"] + sorted(KINDS):
            cases.append({"shape": shape, "n": 3, "specs": [["".join(w if i == k else o for i in range(3))] for k in range(3) for o in "vm"], "runs": runs})
    for shape in TWO:
        for w in ["s"] + sorted(KINDS):
            specs = [["".join(w if i == k else o for i in range(2)), p] for k in range(2) for o in "vm" for p in ("vv", "mm", "Rv")]
            cases.append({"shape": shape, "n": 2, "specs": specs + [s[::-1] for s in specs], "runs": runs})
        two = "vmKR" + ("SI" if ck.thorough else "")
        for b in batches([["".join(t[:2]), "".join(t[2:])] for t in itertools.product(two, repeat=4)], 30):
            cases.append({"shape": shape, "n": 2, "specs": b, "runs": [(0, False), (2, False), (2, True)]})
        if ck.thorough:
            for b in batches([["".join(t[:3]), "".join(t[3:])] for t in itertools.product("vmR", repeat=6)], 30):
                cases.append({"shape": shape, "n": 3, "specs": b, "runs": [(2, False), (0, True)]})
    ck.rule = "a state is one assignment of outcomes to the keys and operands of a recipe shape (or a joint control state of the scheduler); the real merge must raise one of the errors that occurred, or give exactly the keys with values"
    ck.cases("outcomes", outcomes, cases, chunk=2)
    J = 4
    confs = []
    assignments = [["vvR"], ["Rvv"], ["RmK"], ["mvR"], ["vmv"], ["vRv"]]
    for specs in assignments if ck.thorough else assignments[:4]:
        for threads in (2, 3) if ck.thorough else (2,):
            confs.append({"shape": "root", "n": 3, "specs": specs, "threads": threads, "file": False, "bound": 1})
    confs.append({"shape": "fallback", "n": 2, "specs": ["mR", "vm"], "threads": 2, "file": False, "bound": 1})
    confs.append({"shape": "root", "n": 2, "specs": ["vR"], "threads": 2, "file": True, "bound": 1})
    if ck.thorough:
        confs.append({"shape": "root", "n": 2, "specs": ["Rv"], "threads": 2, "file": False, "bound": 2})
        confs.append({"shape": "root", "n": 2, "specs": ["vR"], "threads": 2, "file": True, "bound": 2})
        J = 32
    ck.bounds = {"single operand letters": letters, "error kinds": len(KINDS), "shapes": len(ONE) + len(TWO), "schedule configurations": confs}
    ck.assumptions = ["schedules switch at lines of the merging module and at blocking operations"]
    ck.cases("schedules", schedules, [c | {"slice": [j, J]} for c in confs for j in range(J)], chunk=1, limit=600)
