"""A merge holds a few keys at a time, however many keys and models there are."""
import collections.abc
import ctypes
import gc
import json
import struct
import threading
import weakref
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from sd_mecha.extensions import model_configs
from sd_mecha.merging import open_input_dicts
from torch import Tensor
from mon import lab
from mon.util import merge, QuietBar

ID = "C25"
RULE = ("merges of large models (sparse files) to a file or to a mapping that drops its values run in forked processes; the peak of the resident memory that the system reports is compared between "
        "models with few and with many keys, and between one model and many models that share the same total buffer. Probe methods count the intermediate tensors that are alive while chains of "
        "hundreds of operations are merged. Models of many gigabytes are inspected, converted and merged in part under a memory limit. Distinct by (recipe, threads, buffer, output)")
ASSUMPTIONS = ["peaks are judged with a margin of 24 MB plus the buffers, against at least 60 MB of data"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"peaks compared": 12, "chains": 60, "large models": 12}

MB = 2**20
SHAPE, SIDE = (512, 512), 512 * 512  # 1 MB in float32
COUNTS = {"few": 8, "many": 150, "tiny": 60}


def make_config(name, n, shape):
    model_configs.register_aux(model_configs.from_yaml(
        f"identifier: vm25-{name}\ncomponents:\n  main:\n" + "".join(f"    k.{i}: {{shape: {list(shape)}, dtype: float32}}\n" for i in range(n))))


for name, n in COUNTS.items():
    make_config(name, n, (16,) if name == "tiny" else SHAPE)
make_config("some", 3, (16,))


@merge_method
def vm25_sum(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):
    return a + b


@merge_method
def vm25_by_name(a: Parameter(Tensor), *, b: Parameter(Tensor)) -> Return(Tensor):
    return a + b


@merge_method
def vm25_views(a: Parameter(StateDict[Tensor]), b: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    return a[kwargs["key"]] - b[kwargs["key"]]


def sparse(path, names, shape, dtype="F32", size=4):
    """a valid file of zeros that takes no space"""
    n = size
    for s in shape:
        n *= s
    header = json.dumps({k: {"dtype": dtype, "shape": list(shape), "data_offsets": [i * n, (i + 1) * n]} for i, k in enumerate(names)}).encode()
    with open(path, "wb") as f:
        f.write(struct.pack("<Q", len(header)) + header)
        f.truncate(8 + len(header) + n * len(names))


class Sink(collections.abc.MutableMapping):
    """an output that keeps nothing"""
    def __init__(self):
        self.keys_seen = set()

    def __setitem__(self, k, v):
        self.keys_seen.add(k)

    def __getitem__(self, k):
        raise KeyError(k)

    def __delitem__(self, k):
        raise KeyError(k)

    def __iter__(self):
        return iter(self.keys_seen)

    def __len__(self):
        return len(self.keys_seen)


def peak():
    with open("/proc/self/status") as f:
        return next(int(l.split()[1]) * 1024 for l in f if l.startswith("VmHWM"))


def build(kind, nodes):
    first, *rest = nodes
    if kind == "average":
        return sd_mecha.n_average(*nodes)
    if kind == "left":
        for n in rest:
            first = sd_mecha.weighted_sum(first, n, alpha=0.3)
        return first
    if kind == "right":
        for n in rest:
            first = vm25_sum(n, first)
        return first
    if kind == "views":
        for n in rest:
            first = vm25_views(first, n)
        return first
    if kind == "keyword":
        for n in rest:
            first = vm25_by_name(n, b=first)
        return first
    if kind == "fallback":
        for n in rest:
            first = first | n
        return first
    if kind == "dictionary":
        n = COUNTS["tiny"]
        parts = {f"k.{j}": build("left", nodes[j::n]) for j in range(n) if nodes[j::n]}
        return vm25_sum(first, sd_mecha.literal(parts)) | first
    half = len(nodes) // 2
    return first if not half else vm25_sum(build(kind, nodes[:half]), build(kind, nodes[half:]))


def measured(tmp, config, kind, count, kw, to_file):
    ctypes.CDLL(None).mallopt(-3, 2**16)  # what is freed goes back to the system at once
    nodes = [sd_mecha.model(tmp / f"{config}{i}.safetensors", config=f"vm25-{config}") for i in range(count)]
    torch.ones(10).double().half()
    gc.collect()
    before = peak()
    out = tmp / f"out_{config}.safetensors" if to_file else Sink()
    merge(build(kind, nodes), output=out, **kw)
    res = peak() - before
    n = len(out) if not to_file else None
    if to_file:
        out.unlink()
    return res, n


def growth(ctx):
    """twenty times the keys"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    count = rng.randint(1, 3)
    kind = rng.choice(["average", "left", "right", "keyword", "views", "fallback", "tree"])
    threads = rng.choice([0, 1, 2, 4])
    to_file = rng.random() < 0.6
    kw = {"threads": threads, "total_buffer_size": rng.choice([0, 2**16, 4 * MB]), "merge_dtype": rng.choice([None, torch.float32, torch.float64]),
          "output_dtype": rng.choice([None, torch.float16, torch.float32]), "check_finite": rng.random() < 0.5, "omit_extra_keys": rng.random() < 0.8}
    for config in ("few", "many"):
        for i in range(count):
            sparse(tmp / f"{config}{i}.safetensors", [f"k.{j}" for j in range(COUNTS[config])], SHAPE)
    element = {torch.float16: 2, torch.float64: 8}.get(kw["output_dtype"] or kw["merge_dtype"], 4)
    added = (COUNTS["many"] - COUNTS["few"]) * SIDE * element
    # more keys let more threads be busy at once, nothing else
    slack = max(24 * MB, added // 3) + kw["total_buffer_size"] * 2 + threads * (count + 2) * 2 * MB
    differences = []
    while len(differences) < 3:
        peaks = {}
        for config in ("few", "many"):
            status, value = ctx.fork(measured, tmp, config, kind, count, kw, to_file)
            ctx.check(status == "ok", f"the merge failed: {value}")
            peaks[config], n = value
            if n is not None:
                ctx.check(n == COUNTS[config], "keys are missing")
        differences.append((peaks["many"] - peaks["few"]) / MB)
        ctx.note(recipe=kind, models=count, threads=threads, output="file" if to_file else "mapping", options={k: str(v) for k, v in kw.items()}, peaks={k: v / MB for k, v in peaks.items()}, added=added / MB)
        if differences[-1] < slack / MB:
            break
    if slack < 0.8 * added:
        ctx.check(differences[-1] < slack / MB, "the memory of a merge grows with the number of keys", growth=differences, data=added / MB, slack=slack / MB)
        ctx.count("peaks compared")
    ctx.seen("case", ("growth", kind, count, threads, to_file, kw["total_buffer_size"], str(kw["merge_dtype"]), str(kw["output_dtype"])))
    ctx.sample(**ctx.case_log)


def buffers(ctx):
    """the buffers of all files together"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    count = rng.choice([16, 40])
    total = rng.choice([16, 32]) * MB
    threads = rng.choice([0, 1, 2])
    kind = rng.choice(["average", "left", "right", "keyword", "keyword", "tree", "dictionary"])
    for i in range(count):
        path = tmp / f"tiny{i}.safetensors"
        sparse(path, [f"k.{j}" for j in range(COUNTS["tiny"])] + ["pad"], (16,))
        with open(path, "r+b") as f:  # the extra key is as large as everything else needs to fill the buffers
            size = int.from_bytes(f.read(8), "little")
            header = json.loads(f.read(size))
            start = header["pad"]["data_offsets"][0]
            header["pad"].update(shape=[total // 4], data_offsets=[start, start + total])
            data = json.dumps(header).encode()
            f.seek(0)
            f.write(struct.pack("<Q", len(data)) + data)
            f.truncate(8 + len(data) + start + total)
    to_file = rng.random() < 0.5
    kw = {"threads": threads, "total_buffer_size": total, "merge_dtype": rng.choice([torch.float32, torch.float64])}
    status, value = ctx.fork(measured, tmp, "tiny", kind, count, kw, to_file)
    ctx.check(status == "ok", f"the merge failed: {value}")
    ctx.note(recipe=kind, models=count, threads=threads, total=total / MB, peak=value[0] / MB)
    ctx.check(value[0] < 24 * MB + total * (2.5 + threads), "the buffers together exceed the given total", peak=value[0] / MB, total=total / MB, models=count)
    ctx.count("peaks compared")
    ctx.seen("case", ("buffers", kind, count, threads, total))


# ----- live tensors

LOCK = threading.Lock()
ALIVE = {"now": 0, "peak": 0, "made": 0}


def gone():
    with LOCK:
        ALIVE["now"] -= 1


def tracked(t):
    weakref.finalize(t, gone)
    with LOCK:
        ALIVE["now"] += 1
        ALIVE["made"] += 1
        ALIVE["peak"] = max(ALIVE["peak"], ALIVE["now"])
    return t


@merge_method
def vm25_leaf(a: Parameter(Tensor)) -> Return(Tensor):
    return tracked(a.clone())


@merge_method
def vm25_plus(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):
    return tracked(a + b)


@merge_method
def vm25_keyword(a: Parameter(Tensor), b: Parameter(Tensor), *, c: Parameter(Tensor)) -> Return(Tensor):
    return tracked(a + b + c)


def chains(ctx):
    """a chain of operations needs a few tensors, however long it is and on whichever side it goes on"""
    rng = ctx.rng
    length = rng.choice([3, 30, 120])
    threads = rng.choice([0, 1, 3])
    side = rng.choice(["left", "right", "keyword", "dictionary", "mixed"])
    keys = rng.randint(1, 12) if side not in ("dictionary", "mixed") else 1
    models = [sd_mecha.model({f"x{i}": torch.full((4,), float(j + i)) for i in range(keys)}) for j in range(3)]
    acc = vm25_leaf(models[0])
    value = [0.0 + i for i in range(keys)]
    for _ in range(length):
        j = rng.randrange(3)
        leaf = vm25_leaf(models[j])
        s = rng.choice(["left", "right", "keyword", "dictionary"]) if side == "mixed" else side
        if s == "left":
            acc = vm25_plus(acc, leaf)
        elif s == "right":
            acc = vm25_plus(leaf, acc)
        elif s == "dictionary":
            acc = vm25_plus(leaf, sd_mecha.literal({"y": models[j], "x0": acc} if rng.random() < 0.5 else {"x0": acc}))
        else:
            acc = vm25_keyword(leaf, leaf, c=acc)
            value = [v + j + i for i, v in enumerate(value)]
        value = [v + j + i for i, v in enumerate(value)]
    ALIVE.update(now=0, peak=0, made=0)
    gc.collect()
    out = merge(acc, threads=threads, merge_dtype=torch.float64, output_dtype=None, output=None)
    for i in range(keys):
        ctx.check(out[f"x{i}"][0] == value[i], "the value of a chain is wrong")
    made, top = ALIVE["made"], ALIVE["peak"]
    ctx.note(length=length, threads=threads, side=side, keys=keys, peak=top, made=made)
    ctx.check(made >= keys * length, "the probes were not called")
    # per running key: the chain so far, up to two leaves, the result; and the results in the output
    allowed = 6 * max(1, threads) + keys
    ctx.check(top <= allowed, "the number of tensors that are alive at once grows with the length of the recipe", peak=top, allowed=allowed, length=length, side=side)
    del out
    ctx.check(ALIVE["now"] == 0, "intermediate tensors are alive after the merge", alive=ALIVE["now"])
    ctx.count("chains")
    ctx.count("tensors tracked", made)
    ctx.seen("case", ("chain", length, threads, side, keys))


def keys_done(ctx):
    """what a finished key has used is released before the merge ends"""
    rng = ctx.rng
    keys = 60
    threads = rng.choice([0, 1, 3])
    m = sd_mecha.model({f"x{i}": torch.full((4,), float(i)) for i in range(keys)})
    node = vm25_plus(vm25_leaf(m), vm25_leaf(m))
    ALIVE.update(now=0, peak=0, made=0)
    gc.collect()
    sink = Sink()
    merge(node, threads=threads, output=sink, output_dtype=rng.choice([None, torch.float16]), check_finite=rng.random() < 0.5)
    ctx.check(len(sink) == keys and ALIVE["made"] == 3 * keys, "keys are missing")
    ctx.check(ALIVE["peak"] <= 6 * max(1, threads), "tensors of finished keys are kept", peak=ALIVE["peak"], threads=threads)
    ctx.check(ALIVE["now"] == 0, "tensors are alive after the merge", alive=ALIVE["now"])
    ctx.count("chains")
    ctx.seen("case", ("done", threads))


# ----- models that do not fit

def handle_large(tmp, what, threads):
    big = sd_mecha.model(tmp / "big.safetensors", config="vm25-some")
    before = peak()
    if what == "merge":
        out = merge(sd_mecha.n_average(big, big), threads=threads)
        assert sorted(out) == ["k.0", "k.1", "k.2"], out
    elif what == "convert":
        sd_mecha.convert(big, "vm25-some")
    elif what == "infer":
        try:
            sd_mecha.convert(sd_mecha.model(tmp / "big.safetensors"), "vm25-some")
        except Exception:
            pass
    elif what == "serialize":
        sd_mecha.deserialize(sd_mecha.serialize(sd_mecha.n_average(big, big)))
    else:
        with open_input_dicts(big, buffer_size_per_dict=2**16):
            assert len(big.state_dict) == 43
            assert big.state_dict["k.1"].shape == (16,)
    return peak() - before


def large(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = 40
    header, pos = {}, 0
    names = [f"huge.{i}" for i in range(n)] + ["k.0", "k.1", "k.2"]
    rng.shuffle(names)
    for k in names:
        size = 64 if k.startswith("k.") else rng.choice([256, 512]) * MB
        header[k] = {"dtype": "F32", "shape": [size // 4], "data_offsets": [pos, pos + size]}
        pos += size
    data = json.dumps(header).encode()
    with open(tmp / "big.safetensors", "wb") as f:
        f.write(struct.pack("<Q", len(data)) + data)
        f.truncate(8 + len(data) + pos)
    what = rng.choice(["merge", "merge", "convert", "infer", "serialize", "open"])
    status, value = ctx.fork(handle_large, tmp, what, rng.choice([0, 2]))
    ctx.check(status == "ok", f"{what} of a part of a large model failed: {value}")
    limit = (64 if what == "infer" else 24) * MB  # inference loads every config
    ctx.check(value < limit, f"{what} of a part of a model of {pos / 2**30:.1f} GB needs {value / MB:.0f} MB", peak=value / MB)
    ctx.count("large models")
    ctx.seen("case", ("large", what))


SCENARIOS = [("growth", growth, 5), ("buffers", buffers, 2), ("chains", chains, 6), ("keys_done", keys_done, 2), ("large", large, 2)]
