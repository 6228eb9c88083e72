"""Merge methods of the harness, registered once per process, and reference arithmetic on exact rationals."""
from fractions import Fraction as F
from .env import *

P, Rt, Tn, SD = sd_mecha.Parameter, sd_mecha.Return, torch.Tensor, sd_mecha.StateDict


@sd_mecha.merge_method(identifier="mc_next")
def mc_next(a: P(SD[Tn]), **kwargs) -> Rt(Tn):
    """Reads another key than the one asked for, through the state dict interface."""
    ks = sorted(a.keys())
    return a[ks[(ks.index(kwargs["key"]) + 1) % len(ks)]]


@sd_mecha.merge_method(identifier="mc_total")
def mc_total(a: P(SD[Tn]), b: P(Tn), **kwargs) -> Rt(Tn):
    """Reads every key of a: adds their totals to b."""
    for k in a:
        b = b + a[k].sum()
    return b


@sd_mecha.merge_method(identifier="mc_scale")
def mc_scale(a: P(Tn), f: P(float) = 2.0) -> Rt(Tn):
    return a * f


@sd_mecha.merge_method(identifier="mc_lin")
def mc_lin(*xs: P(Tn), w: P(Tn) = 0.5, **kwargs) -> Rt(Tn):
    """Variable operands, a keyword weight: x0 + w * x1 + 2 w * x2 + ..."""
    out = xs[0]
    for i, x in enumerate(xs[1:]):
        out = out + w * (i + 1) * x
    return out


class Missing(Exception):
    pass


def values(t):
    return [F(x) for x in t.to(torch.float64).reshape(-1).tolist()]
