"""Independent building blocks: safetensors codec, bitwise comparison, quiet progress bars, merge helper."""
import collections
import contextlib
import hashlib
import json
import logging
import pathlib
import struct
import threading
import zlib
import torch
import sd_mecha
from .core import Violation

DTYPES = {
    "F64": torch.float64, "F32": torch.float32, "F16": torch.float16, "BF16": torch.bfloat16,
    "I64": torch.int64, "I32": torch.int32, "I16": torch.int16, "I8": torch.int8,
    "U64": torch.uint64, "U32": torch.uint32, "U16": torch.uint16, "U8": torch.uint8,
    "F8_E4M3": torch.float8_e4m3fn, "F8_E5M2": torch.float8_e5m2, "BOOL": torch.bool,
}
NAMES = {v: k for k, v in DTYPES.items()}
FLOATS = [torch.float64, torch.float32, torch.float16, torch.bfloat16]


def raw(t: torch.Tensor) -> bytes:
    """logical (row major) bytes of a tensor"""
    t = t.detach().cpu().resolve_conj().resolve_neg()
    flat = t.reshape(-1) if t.dim() else t.reshape(1)
    if flat.numel() == 0:
        return b""
    flat = flat.clone(memory_format=torch.contiguous_format)
    return bytes(flat.view(torch.uint8).numpy().tobytes())


def same(a, b) -> bool:
    return (
        isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and
        a.dtype == b.dtype and tuple(a.shape) == tuple(b.shape) and raw(a) == raw(b)
    )


def describe(t):
    if isinstance(t, torch.Tensor):
        flat = t.reshape(-1)
        return f"{t.dtype} {tuple(t.shape)} {[x.item() for x in flat[:6].to(torch.float64)]}"
    return repr(t)


def digest(t):
    return hashlib.blake2b(raw(t) + repr((t.dtype, tuple(t.shape))).encode(), digest_size=12).hexdigest()


def write_safetensors(path, tensors, metadata=None, order=None, header_pad=0, escaped=True):
    """independent writer; `order` is the order of the data section, the header keeps the order of `tensors`"""
    order = list(tensors) if order is None else list(order)
    offsets, pos = {}, 0
    for k in order:
        n = tensors[k].numel() * tensors[k].element_size()
        offsets[k] = (pos, pos + n)
        pos += n
    header = {} if metadata is None else {"__metadata__": metadata}
    for k, t in tensors.items():
        header[k] = {"dtype": NAMES[t.dtype], "shape": list(t.shape), "data_offsets": list(offsets[k])}
    data = json.dumps(header, ensure_ascii=escaped).encode() + b" " * header_pad
    with open(path, "wb") as f:
        f.write(struct.pack("<Q", len(data)))
        f.write(data)
        for k in order:
            f.write(raw(tensors[k]))
    return path


class BadFile(Exception):
    pass


def read_safetensors(path):
    """strict, independent reader; returns (tensors, metadata)"""
    blob = pathlib.Path(path).read_bytes()
    if len(blob) < 8:
        raise BadFile("no header size")
    (n,) = struct.unpack("<Q", blob[:8])
    if 8 + n > len(blob):
        raise BadFile(f"header size {n} exceeds the file size {len(blob)}")

    def no_duplicates(pairs):
        keys = [k for k, _ in pairs]
        if len(set(keys)) != len(keys):
            raise BadFile(f"duplicate keys in header: {[k for k, c in collections.Counter(keys).items() if c > 1]}")
        return dict(pairs)

    try:
        text = blob[8:8 + n].decode("utf-8")
        header = json.loads(text, object_pairs_hook=no_duplicates)
        json.dumps(header, ensure_ascii=False).encode("utf-8")  # escapes of surrogates without a partner are refused elsewhere
    except (UnicodeError, json.JSONDecodeError) as e:
        raise BadFile(f"unreadable header: {e}")
    if not text.startswith("{"):
        raise BadFile("header must begin with '{'")
    metadata = header.pop("__metadata__", None)
    if metadata is not None and not all(isinstance(k, str) and isinstance(v, str) for k, v in metadata.items()):
        raise BadFile("metadata must map strings to strings")
    data = blob[8 + n:]
    tensors, spans = {}, []
    for k, info in header.items():
        if set(info) != {"dtype", "shape", "data_offsets"}:
            raise BadFile(f"unexpected header entry {info}")
        dtype = DTYPES[info["dtype"]]
        a, b = info["data_offsets"]
        numel = 1
        for s in info["shape"]:
            numel *= s
        size = numel * torch.empty((), dtype=dtype).element_size()
        if b - a != size:
            raise BadFile(f"{k}: offsets {a, b} span {b - a} bytes, shape {info['shape']} {dtype} needs {size}")
        if not 0 <= a <= b <= len(data):
            raise BadFile(f"{k}: offsets {a, b} out of the data section ({len(data)} bytes)")
        spans.append((a, b, k))
        t = torch.frombuffer(bytearray(data[a:b]), dtype=torch.uint8).view(dtype) if size else torch.empty(0, dtype=dtype)
        tensors[k] = t.reshape(info["shape"])
    spans.sort()
    pos = 0
    for a, b, k in spans:
        if a != pos:
            raise BadFile(f"{k}: hole or overlap in the data section at {pos}..{a}")
        pos = b
    if pos != len(data):
        raise BadFile(f"data section has {len(data)} bytes, the header accounts for {pos}")
    return tensors, metadata


class QuietBar:
    """progress bar stand-in that records what it was told"""
    def __init__(self, *args, total=None, **kwargs):
        self.total = total
        self.updates = 0
        self.postfixes = 0
        self.closed = False
        self._lock = threading.Lock()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    def close(self):
        self.closed = True

    def update(self, n=1):
        with self._lock:
            self.updates += n

    def set_postfix(self, *args, **kwargs):
        self.postfixes += 1


# what merge() does with the options that are left out
DEFAULTS = {
    "fallback_model": None, "merge_device": "cpu", "merge_dtype": torch.float64, "output_device": "cpu", "output_dtype": torch.float16, "threads": None,
    "model_dirs": (), "strict_weight_space": True, "check_finite": True, "omit_extra_keys": True, "check_mandatory_keys": False, "output": None,
}


def leave_out_defaults(kw):
    """options whose value is the default are given or left out, which must not matter; which of them depends on the options alone"""
    res = {}
    for name, value in kw.items():
        simple = value is None or isinstance(value, (bool, int, str, torch.dtype, tuple))
        if name in DEFAULTS and simple and type(value) is type(DEFAULTS[name]) and value == DEFAULTS[name]:
            if zlib.crc32(repr((name, sorted((k, str(v)) for k, v in kw.items() if isinstance(v, (bool, int, torch.dtype))))).encode()) % 2:
                continue
        res[name] = value
    return res


def merge(recipe, **kw):
    kw = leave_out_defaults(kw)
    kw.setdefault("tqdm", QuietBar)
    kw.setdefault("total_buffer_size", 2**18)  # the default allocates hundreds of megabytes for every small file
    return sd_mecha.merge(recipe, **kw)


@contextlib.contextmanager
def captured_logs():
    records = []

    class Handler(logging.Handler):
        def emit(self, record):
            records.append(record)

    handler = Handler(level=logging.WARNING)
    root = logging.getLogger()
    root.addHandler(handler)
    try:
        yield records
    finally:
        root.removeHandler(handler)


def expect_same(ctx, expected, actual, what, ignore_order=True, **details):
    """expected, actual: mappings of tensors"""
    missing = [k for k in expected if k not in actual]
    extra = [k for k in actual if k not in expected]
    ctx.check(not missing, f"{what}: keys missing from the result", missing=missing[:8], **details)
    ctx.check(not extra, f"{what}: unexpected keys in the result", extra=extra[:8], **details)
    for k in expected:
        if not same(expected[k], actual[k]):
            ctx.fail(
                f"{what}: wrong value for key {k!r}",
                expected=describe(expected[k]), actual=describe(actual[k]), **details,
            )
        ctx.count("tensors compared")


def rand_tensor(rng, shape, dtype=torch.float64, ints=True, lo=-8, hi=8):
    n = 1
    for s in shape:
        n *= s
    if dtype == torch.bool:
        return torch.tensor([rng.random() < 0.5 for _ in range(n)], dtype=torch.bool).reshape(shape)
    if dtype in (torch.uint8, torch.uint16, torch.uint32, torch.uint64):
        lo = 0
    if ints or not dtype.is_floating_point:
        vals = [rng.randint(lo, hi) for _ in range(n)]
    else:
        vals = [rng.gauss(0, 1) for _ in range(n)]
    t = torch.tensor(vals, dtype=torch.float64 if dtype.is_floating_point else torch.int64)
    return t.to(dtype).reshape(shape)


def rand_bits(rng, shape, dtype):
    """arbitrary bit patterns, including nan, inf and denormals"""
    n = torch.empty((), dtype=dtype).element_size()
    for s in shape:
        n *= s
    if dtype == torch.bool:
        return rand_tensor(rng, shape, dtype)
    data = bytearray(rng.randbytes(n))
    t = torch.frombuffer(data, dtype=torch.uint8).view(dtype) if n else torch.empty(0, dtype=dtype)
    return t.clone().reshape(shape)


def rand_shape(rng, max_dims=4, allow_empty=False, max_side=5):
    dims = rng.choice([0, 1, 1, 2, 2, 2, 3, 4])
    dims = min(dims, max_dims)
    low = 0 if allow_empty and rng.random() < 0.15 else 1
    return tuple(rng.randint(low, max_side) for _ in range(dims))
