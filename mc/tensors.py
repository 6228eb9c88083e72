"""Catalogue of small tensors: every dtype, several shapes and memory layouts, with distinctive content."""
import torch
from .env import DT

SHAPES = [(), (0,), (1,), (3,), (2, 3), (0, 2), (2, 1, 2), (2, 2, 1, 1)]
LAYOUTS = ["plain", "transposed", "strided", "expanded", "offset", "channels_last", "negview", "storage_tail", "flipped_strides"]


def fill(shape, dtype, salt=0):
    n = 1
    for s in shape:
        n *= s
    if dtype == torch.bool:
        return (torch.arange(n) * 7 + salt).remainder(3).eq(0).reshape(shape)
    v = (torch.arange(n, dtype=torch.float64) * 3 + 1 + salt * 5) % 61
    if dtype.is_floating_point:
        v = v / 4 - 5
    return v.to(torch.int64).to(dtype).reshape(shape) if not dtype.is_floating_point else v.to(dtype).reshape(shape)


def make(shape, dtype, layout, salt=0):
    """A tensor of the given logical content laid out in memory as asked; None when the layout does not apply."""
    t = fill(shape, dtype, salt)
    if layout == "plain":
        return t
    if layout == "transposed":
        if t.dim() < 2:
            return None
        order = list(range(t.dim()))[::-1]
        big = t.permute(order).clone(memory_format=torch.contiguous_format)
        return big.permute(order)
    if layout == "flipped_strides":
        if t.dim() < 3:
            return None
        order = [1, 2, 0] + list(range(3, t.dim()))
        inv = [order.index(i) for i in range(t.dim())]
        return t.permute(order).clone(memory_format=torch.contiguous_format).permute(inv)
    if layout == "strided":
        if t.dim() < 1:
            return None
        big = torch.stack([t, fill(shape, dtype, salt + 11)], dim=-1).contiguous()
        return big[..., 0]
    if layout == "expanded":
        if t.dim() < 1 or t.shape[0] == 0:
            return None
        return t[:1].clone().expand(t.shape)
    if layout == "offset":
        flat = torch.cat([fill((2,), dtype, salt + 3), t.reshape(-1), fill((1,), dtype, salt + 4)])
        return flat[2:2 + t.numel()].reshape(t.shape)
    if layout == "storage_tail":
        flat = torch.cat([t.reshape(-1), fill((5,), dtype, salt + 9)])
        return flat[:t.numel()].view(t.shape)
    if layout == "channels_last":
        if t.dim() != 4:
            return None
        return fill((2, 3, 2, 1), dtype, salt).contiguous(memory_format=torch.channels_last)
    if layout == "negview":
        if dtype not in (torch.float32, torch.float64):
            return None
        return torch._neg_view(t.clone())
    raise ValueError(layout)
