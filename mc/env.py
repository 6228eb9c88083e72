"""Import of the code under test and small helpers around its public API."""
import importlib
import json
import logging
import os
import pathlib
import struct
import torch
from . import sched

sched.install()  # before sd_mecha is imported: its locks are cooperative
torch.set_num_threads(1)
import sd_mecha
from sd_mecha import merging, streaming, serialization, recipe_nodes
from sd_mecha.extensions import model_configs, merge_methods, merge_spaces
from .core import REPO

if not os.path.abspath(sd_mecha.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit(f"error: sd_mecha imported from {sd_mecha.__file__}, expected {REPO}")


def quiet():
    import tqdm
    tqdm.tqdm.monitor_interval = 0  # no monitor thread of the progress bar library
    logging.disable(logging.CRITICAL)


class NoBar:
    """A progress bar that does nothing, whatever it is asked."""

    def __init__(self, *a, **k):
        it = a[0] if a else k.get("iterable")
        self._it = it

    def __iter__(self):
        return iter(self._it if self._it is not None else ())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        return lambda *a, **k: None


DT = {
    "F64": torch.float64, "I64": torch.int64, "F32": torch.float32, "I32": torch.int32, "F16": torch.float16,
    "BF16": torch.bfloat16, "I16": torch.int16, "I8": torch.int8, "F8_E4M3": torch.float8_e4m3fn,
    "F8_E5M2": torch.float8_e5m2, "BOOL": torch.bool, "U64": torch.uint64, "U32": torch.uint32, "U16": torch.uint16,
    "U8": torch.uint8,
}
DT_REV = {v: k for k, v in DT.items()}


def tbytes(t):
    """Logical bytes of a tensor in row-major order, computed independently of the code under test."""
    t = t.detach().clone(memory_format=torch.contiguous_format)
    if t.numel() == 0:
        return b""
    return bytes(t.reshape(-1).view(torch.uint8).numpy().tobytes()) if t.dtype != torch.bool else bytes(
        t.reshape(-1).to(torch.uint8).numpy().tobytes())


def fingerprint(t):
    """Exact identity of a value: dtype, shape, bytes."""
    if isinstance(t, torch.Tensor):
        return (DT_REV.get(t.dtype, str(t.dtype)), tuple(t.shape), tbytes(t).hex())
    return (type(t).__name__, repr(t))


class BadFile(Exception):
    pass


def parse_safetensors(data: bytes):
    """A strict reference parser of the safetensors format: {name: (dtype, shape, bytes)}, metadata."""
    if len(data) < 8:
        raise BadFile("shorter than the length prefix")
    n = struct.unpack("<Q", data[:8])[0]
    if n > len(data) - 8 or n == 0:
        raise BadFile("header length out of range")
    raw = data[8:8 + n]
    try:
        text = raw.decode("utf-8")
        if not text.startswith("{"):
            raise BadFile("header must begin with {")
        dup = []

        def hook(pairs):
            keys = [k for k, _ in pairs]
            if len(set(keys)) != len(keys):
                dup.append(keys)
            return dict(pairs)

        header = json.loads(text, object_pairs_hook=hook)
        if dup:
            raise BadFile("duplicate names in header")
    except (UnicodeDecodeError, ValueError) as e:
        raise BadFile(f"header is not JSON: {e}")
    meta = header.pop("__metadata__", {})
    body = data[8 + n:]
    out, spans = {}, []
    for k, v in header.items():
        try:
            b, e = v["data_offsets"]
            shape, dt = tuple(v["shape"]), v["dtype"]
        except Exception:
            raise BadFile(f"bad entry {k}: {v}")
        if dt not in DT:
            raise BadFile(f"unknown dtype {dt}")
        numel = 1
        for s in shape:
            numel *= s
        size = numel * (torch.empty((), dtype=DT[dt]).element_size())
        if not (0 <= b <= e <= len(body)) or e - b != size:
            raise BadFile(f"bad offsets of {k}: {v}, body {len(body)}")
        spans.append((b, e))
        out[k] = (dt, shape, body[b:e].hex())
    spans.sort()
    pos = 0
    for b, e in spans:
        if b != pos:
            raise BadFile("hole or overlap in the data section")
        pos = e
    if pos != len(body):
        raise BadFile("trailing bytes after the data section")
    return out, meta


def write_safetensors(path, tensors, meta=None, *, names=None, pad=0):
    """A reference writer, so that inputs do not depend on the code under test."""
    header, body = {}, b""
    if meta is not None:
        header["__metadata__"] = meta
    for k in (names or tensors):
        b = tbytes(tensors[k])
        header[k] = {"dtype": DT_REV[tensors[k].dtype], "shape": list(tensors[k].shape),
                     "data_offsets": [len(body), len(body) + len(b)]}
        body += b
    raw = json.dumps(header).encode() + b" " * pad
    data = struct.pack("<Q", len(raw)) + raw + body
    with open(path, "wb") as f:
        f.write(data)
    return data


def prints(sd):
    return {k: fingerprint(v) for k, v in sd.items()}
