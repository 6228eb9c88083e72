"""Catalogue of the public merge methods and wrappers: operands, merge spaces and parameter values to try.

Each entry names the callable, the merge space of each operand (w weight, d delta) and, per optional parameter, the
documented default followed by other values. TENSOR marks values that are turned into tensors by the harness.
"""
from .env import *
from sd_mecha.extensions.builtin import merge_methods as builtin

SHAPES = {"s0": (), "v1": (4,), "m2": (3, 4), "c4": (2, 2, 2, 2), "o1": (1,), "t3": (2, 3, 2)}
CONFIG = "zzm-all"


class E:
    def __init__(self, name, operands, params=None, *, fn=None, spaces=None, random=False, variadic=False, result="same"):
        self.name, self.operands, self.params = name, operands, params or {}
        self.fn = fn
        self.random = random
        self.variadic = variadic
        self.result = result  # "same" shape as the operands, or the name of another kind of result

    def call(self, leaves, params):
        return self.resolve()(*leaves, **params)

    def resolve(self):
        return self.fn or getattr(sd_mecha, self.name, None) or getattr(builtin, self.name)

    def variants(self):
        """The default call, then one parameter changed at a time (every alternative), then all of them changed."""
        yield {}
        for k, vs in self.params.items():
            for v in vs[1:]:
                yield {k: v}
        if len(self.params) > 1:
            yield {k: vs[-1] for k, vs in self.params.items()}


ALPHA = [0.5, 0.25, 0, 1]
ALPHA1 = [1.0, 0.5, 0, 2]
TIES = {"k": [0.2, 0.5, 1.0], "vote_sgn": [False, True], "apply_stock": [False, True], "apply_median": [False, True],
        "cos_eps": [1e-6, 1e-3], "eps": [1e-6, 1e-3], "maxiter": [100, 3, 0], "ftol": [1e-20, 1e-3]}
DARE = {"probability": [0.9, 0.5, 0.0, 1.0], "seed": [None, 7]}

CATALOGUE = [
    E("weighted_sum", "ww", {"alpha": ALPHA}),
    E("weighted_sum", "dd", {"alpha": ALPHA}),
    E("slerp", "ww", {"alpha": ALPHA}),
    E("n_average", "www", variadic=True),
    E("n_average", "w", variadic=True),
    E("geometric_median", "www", {"eps": [1e-6, 1e-2], "maxiter": [100, 1, 0], "ftol": [1e-20, 1e-2]}, variadic=True),
    E("subtract", "ww"),
    E("perpendicular_component", "dd"),
    E("geometric_sum", "ww", {"alpha": ALPHA}),
    E("train_difference_mask", "www", {"alpha": ALPHA1}),
    E("add_opposite_mask", "www", {"alpha": ALPHA1}),
    E("add_strict_opposite_mask", "www", {"alpha": ALPHA1}),
    E("add_cosine_a", "ww", {"alpha": ALPHA1}),
    E("add_cosine_b", "ww", {"alpha": ALPHA1}),
    E("ties_sum", "ddd", {"k": [1.0, 0.5, 0.2], "vote_sgn": [False, True]}, variadic=True),
    E("ties_sum_extended", "ddd", TIES, variadic=True),
    E("crossover", "ww", {"alpha": ALPHA, "tilt": [0.0, 0.5, 1, 1.5, 2, 3.3]}),
    E("clamp", "www", {"stiffness": [0.0, 0.5, 1.0]}, variadic=True),
    E("model_stock", "ddd", {"cos_eps": [1e-6, 1e-3]}, variadic=True),
    E("fallback", "ww"),
    E("cast", "w", {"device": [None, "cpu"], "dtype": [None, "float16", "bfloat16", "float64"]}),
    E("pick_component", "w", fn=lambda a, **p: sd_mecha.pick_component(a, "c", **p)),
    E("omit_component", "w", fn=lambda a, **p: sd_mecha.omit_component(a, "other", **p)),
    E("exchange_ema", "w"),
    E("select_max_delta", "dd", {"alpha": ALPHA}),
    E("select_max_white_delta", "dd", {"alpha": ALPHA}),
    E("multiply_quotient", "www", {"alpha": ALPHA1}),
    E("copy_distribution", "w", random=True),
    E("truncate_rank", "d", {"rank_ratio": [0.5, 0.0, 1.0, 0.7]}, random=True),
    E("tensor_sum (method)", "ww", {"width": [0.5, 0.25, 1.0, 0.0], "offset": [0.0, 0.5, 0.8]}, fn=builtin.tensor_sum),
    E("top_k_tensor_sum", "ww", {"width": [1.0, 0.5, 0.0], "offset": [0.0, 0.5, 0.8]}),
    E("rotate (method)", "ww", {"alignment": [1.0, 0.0, 0.5, 2.0], "alpha": [0.0, 0.5, 1.0]}, fn=builtin.rotate),
    E("dropout (method)", "ddd", {"probability": [0.9, 0.5, 0.0, 1.0], "rescale": [1.0, 0.0], "overlap": [1.0, 0.0, 0.5],
                                  "overlap_emphasis": [0.0], "seed": [None, 7]}, fn=builtin.dropout, variadic=True, random=True),
    E("ties_sum_with_dropout", "ddd", TIES | DARE | {"no_rescale": [False, True]}, variadic=True),
    E("add_difference (method)", "wd", {"alpha": ALPHA1}, fn=builtin.add_difference),
    E("add_difference", "wd", {"alpha": ALPHA1}),
    E("add_difference", "www", {"alpha": ALPHA1, "clamp_to_ab": [False, True]}),
    E("add_perpendicular", "www", {"alpha": ALPHA1}),
    E("add_difference_ties", "wwww", {"alpha": ALPHA1, "k": [1.0, 0.5]}, variadic=True),
    E("add_difference_ties_extended", "wwdw", {"alpha": ALPHA1} | TIES, variadic=True),
    E("copy_region", "ww", {"width": [1.0, 0.5, 0.25], "offset": [0.0, 0.5, -0.3], "top_k": [False, True]}),
    E("copy_region", "www", {"width": [1.0, 0.5, 0.25], "offset": [0.0, 0.5], "top_k": [False, True]}),
    E("tensor_sum", "ww", {"width": [1.0, 0.5], "offset": [0.0, 0.75]}),
    E("rotate", "ww", {"alignment": [1.0, 0.0, 0.5, 3.0], "alpha": [0.0, 0.5, 1.0], "cache": [None, {}]}),
    E("rotate", "www", {"alignment": [1.0, 0.5], "alpha": [0.0, 0.5]}),
    E("dropout", "www", {"probability": [0.9, 0.5, 0.0], "alpha": [0.5, 1.0], "overlap": [1.0, 0.0, 0.5], "overlap_emphasis": [0.0, 0.5],
                         "seed": [None, 7]}, variadic=True, random=True),
    E("ties_with_dare", "wwdw", TIES | DARE | {"k": [1.0, 0.5], "rescale": [True, False], "alpha": ALPHA1}, variadic=True),
    E("n_model_stock", "wwdw", {"cos_eps": [1e-6, 1e-3]}, variadic=True),
    E("operator +", "wd", fn=lambda a, b: a + b),
    E("operator -", "ww", fn=lambda a, b: a - b),
    E("operator |", "ww", fn=lambda a, b: a | b),
]
SPACE = {"w": "weight", "d": "delta"}


def ensure_config():
    try:
        model_configs.register(model_configs.ModelConfigImpl(CONFIG, {
            "c": {k: {"shape": list(sh), "dtype": "float32"} for k, sh in SHAPES.items()}, "other": {}}))
    except ValueError:
        pass


def rank_of(space):
    return {"w": 0, "d": 1}[space]


def data(i, space="w", dtype=torch.float32, scale=1.0):
    """Distinct, sign-mixed, non-degenerate values; deltas are small."""
    out = {}
    for j, (k, sh) in enumerate(SHAPES.items()):
        n = 1
        for x in sh:
            n *= x
        v = torch.tensor([((m * 37 + i * 53 + j * 11 + m * m * 5 * (i + 1)) % 97 - 48) / 16 + 0.03125 for m in range(n)], dtype=torch.float64)
        out[k] = (v * scale).reshape(sh).to(dtype)
    return out
