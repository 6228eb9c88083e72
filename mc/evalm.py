"""Evaluation of methods on many operand tuples at once: one merge, one key per tuple."""
from .env import *
import hashlib


def config_of(shapes):
    ident = "zzx-" + hashlib.sha256(repr(shapes).encode()).hexdigest()[:16]
    return model_configs.ModelConfigImpl(ident, {"c": {f"r{i}": {"shape": list(sh), "dtype": "float32"} for i, sh in enumerate(shapes)}, "ema": {}})


SPACE = {"w": "weight", "d": "delta", "p": "param"}


class PerKey(list):
    """One value per row, passed as a dictionary of numbers or tensors."""


def evaluate(fn, spaces, rows, params=None, dtype=torch.float64, threads=0, **opts):
    """[result of fn on each row] through one real merge; a row is a tuple of operand tensors."""
    c = config_of([tuple(r[0].shape) for r in rows])
    names = list(c.keys())
    leaves = [sd_mecha.literal({names[i]: r[j].to(dtype) for i, r in enumerate(rows)}, c, SPACE[sp]) for j, sp in enumerate(spaces)]
    kw = {}
    for k, v in (params or {}).items():
        kw[k] = sd_mecha.literal(dict(zip(names, v)), c, "param") if isinstance(v, PerKey) else v
    recipe = fn(*leaves, **kw)
    out = {}
    sd_mecha.merge(recipe, output=out, threads=threads, tqdm=NoBar, merge_dtype=dtype, output_dtype=None, strict_weight_space=False, **opts)
    return [out[n] for n in names]


def tensors_over(alphabet, shape):
    """Every tensor of a shape over an alphabet."""
    import itertools
    n = 1
    for x in shape:
        n *= x
    return [torch.tensor(v, dtype=torch.float64).reshape(shape) for v in itertools.product(alphabet, repeat=n)]


def pattern(shape, i, ties=False):
    """A large tensor of distinct, sign-mixed values spread evenly over (-2, 2); with ties: multiples of 1/8."""
    n = 1
    for x in shape:
        n *= x
    v = (torch.arange(1, n + 1, dtype=torch.float64) * 0.6180339887498949 + i * 0.7548776662466927).remainder(1) * 4 - 2
    if ties:
        v = (v * 8).round() / 8
    return v.reshape(shape)
