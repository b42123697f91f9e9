"""Output files are valid safetensors files that hold exactly what an in-memory merge returns."""
import torch
import sd_mecha
from safetensors import safe_open
from sd_mecha import merge_method, Parameter, Return, StateDict
from torch import Tensor
from mon import lab, sched
from mon.util import (merge, read_safetensors, BadFile, write_safetensors, rand_bits, rand_shape, same, describe, DTYPES, NAMES, expect_same)

ID = "C04"
RULE = ("recipes whose results have random dtypes, bit patterns, shapes (empty, scalar, large), memory layouts (views, transposes, expanded, "
        "strided, negative offsets, lazily negated) and shapes unrelated to the declared metadata are saved with random thread counts, buffer sizes and schedules; "
        "the file is parsed by a strict independent reader and by the safetensors library and compared bit by bit with the in-memory merge. "
        "Distinct by (layout/dtype/shape list, threads, buffer)")
ASSUMPTIONS = ["the safetensors format as published: header length, JSON header, contiguous data section without holes"]
BUDGET = {"quick": (100000, 16), "thorough": (10**7, 900)}
REQUIRED = {"files parsed": 200, "tensors compared": 2000, "views written": 200, "headers that outgrew their estimate": 10, "inputs of dtypes that files cannot hold": 10}

LAYOUTS = ["plain", "transpose", "slice", "stride", "expand", "offset", "flip", "select", "permute", "negated"]
FOREIGN = [torch.complex64, torch.complex128, torch.float8_e4m3fnuz, torch.float8_e5m2fnuz]
current = {}


def laid_out(rng, dtype, layout):
    """a tensor with the wanted memory layout and random bits"""
    if dtype == torch.bool or layout == "plain":
        return rand_bits(rng, rand_shape(rng, allow_empty=True, max_side=6), dtype)
    r = rng.randint
    if layout == "transpose":
        return rand_bits(rng, (r(1, 6), r(1, 6)), dtype).t()
    if layout == "slice":
        t = rand_bits(rng, (r(2, 6), r(2, 6)), dtype)
        return t[:, r(0, 1):r(1, t.shape[1])]
    if layout == "stride":
        return rand_bits(rng, (r(2, 9), r(1, 4)), dtype)[::r(2, 3)]
    if layout == "expand":
        return rand_bits(rng, (r(1, 5), 1), dtype).expand(-1, r(1, 6))
    if layout == "offset":
        t = rand_bits(rng, (r(3, 20),), dtype)
        return t[r(1, 2):]
    if layout == "flip":
        t = rand_bits(rng, (r(2, 6), r(2, 6)), dtype)
        return t[:, -1]
    if layout == "select":
        return rand_bits(rng, (r(2, 6), r(2, 4)), dtype)[r(0, 1), r(0, 1)]
    if layout == "negated":
        # torch negates the imaginary parts of conjugates when they are used: the storage has the other sign
        dtype = dtype if dtype in (torch.float16, torch.float32, torch.float64) else torch.float32
        shape = rng.choice([(), (1,), (1, 1), (r(2, 5),), (r(1, 3), r(1, 3))])
        g = torch.Generator().manual_seed(rng.getrandbits(30))
        return torch.view_as_complex(torch.randn((*shape, 2), generator=g, dtype=torch.float64).to(dtype)).conj().imag
    return rand_bits(rng, (r(1, 3), r(1, 3), r(1, 4)), dtype).permute(2, 0, 1)


@merge_method
def vm_c04_produce(
    x: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    """whatever the workload wants for this key"""
    x[kwargs["key"]]
    return current[kwargs["key"]]


def check_file(ctx, path, expected, **details):
    try:
        tensors, metadata = read_safetensors(path)
    except BadFile as e:
        ctx.fail(f"the output is not a valid safetensors file: {e}", **details)
    ctx.count("files parsed")
    expect_same(ctx, expected, tensors, "saved file", **details)
    try:
        with safe_open(path, framework="pt") as f:
            ctx.check(set(f.keys()) == set(expected), "the safetensors library sees other keys", **details)
            for k in list(expected)[:20]:
                if expected[k].dtype in (torch.uint16, torch.uint32, torch.uint64):
                    continue
                t = f.get_tensor(k)
                ctx.check(same(t, expected[k]), f"the safetensors library reads another value for {k!r}", **details)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        ctx.fail(f"the safetensors library rejects the file: {e}", **details)
    return metadata


def produce(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.choice([1, 2, 5, 20, 60])
    dtypes = list(DTYPES.values())
    one_dtype = rng.choice([None, None, rng.choice(dtypes)])
    current.clear()
    src = {}
    layouts = []
    grow = rng.random() < 0.3
    for i in range(n):
        k = f"zz.{'é' if rng.random() < 0.05 else 'k'}{i}" + rng.choice(["", ".weight", "." + "x" * rng.randint(1, 40), '."q"', " space"] if rng.random() < 0.3 else [""])
        d = one_dtype or rng.choice(dtypes)
        layout = rng.choice(LAYOUTS)
        t = laid_out(rng, d, layout)
        if rng.random() < 0.1:
            t = rand_bits(rng, (rng.randint(100, 4000),), d)
        current[k] = t
        layouts.append(layout)
        if layout != "plain":
            ctx.count("views written")
        # the declared shape may be right, or not
        src[k] = torch.zeros((1,) if grow else tuple(t.shape) if rng.random() < 0.7 else (2,), dtype=torch.float32)
    node = vm_c04_produce(sd_mecha.model(src) if rng.random() < 0.5 else sd_mecha.model(write_safetensors(tmp / "src.safetensors", src)))
    kw = {
        "threads": rng.choice([0, 1, 2, 4, 8]), "total_buffer_size": rng.choice([0, 0, 1, 10, 100, 1000, 10**5, 2**22]),
        "output_dtype": None, "output_device": None, "check_finite": False,
    }
    path = tmp / "out.safetensors"
    if rng.random() < 0.3:
        path.write_bytes(rng.randbytes(rng.randint(1, 100000)))  # leftovers of another file
    before = {k: v.resolve_neg().clone() for k, v in current.items()}
    details = {"threads": kw["threads"], "buffer": kw["total_buffer_size"], "tensors": [(k, str(t.dtype), list(t.shape), l) for (k, t), l in zip(current.items(), layouts)][:12]}
    ctx.note(**details)
    if rng.random() < 0.4:
        with sched.perturbed(rng, rng.choice([0.05, 0.2])):
            merge(node, output=path, **kw)
    else:
        merge(node, output=path, **kw)
    check_file(ctx, path, before, **details)
    if grow:
        ctx.count("headers that outgrew their estimate")
    # the same recipe in memory
    mem = merge(node, **kw)
    expect_same(ctx, before, mem, "in-memory merge", **details)
    ctx.seen("case", (kw["threads"], kw["total_buffer_size"], layouts, [(str(t.dtype), tuple(t.shape)) for t in current.values()]))
    ctx.sample(**details)


def casts(ctx):
    """ordinary merges to every output dtype"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(1, 20)
    src = {f"zz.k{i}": torch.randn(rand_shape(rng, allow_empty=True), generator=torch.Generator().manual_seed(rng.getrandbits(30))) for i in range(n)}
    if rng.random() < 0.25:
        # dtypes that only exist in memory
        foreign = rng.choice(FOREIGN)
        src = {k: v.to(foreign) if rng.random() < 0.7 else v for k, v in src.items()}
        ctx.count("inputs of dtypes that files cannot hold")
    dtype = rng.choice([torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.float8_e4m3fn, torch.float8_e5m2, torch.int32, torch.bool, torch.uint8])
    recipe = sd_mecha.weighted_sum(sd_mecha.model(src), sd_mecha.model({k: (v.to(torch.complex128).real + 1).float() for k, v in src.items()}), rng.random())
    kw = {"threads": rng.choice([0, 2, 6]), "total_buffer_size": rng.choice([0, 333, 2**22]), "output_dtype": dtype, "check_finite": False}
    mem = merge(recipe, **kw)
    for v in mem.values():
        ctx.check(v.dtype == dtype, f"in-memory result has dtype {v.dtype}, not {dtype}")
    path = tmp / "out.safetensors"
    merge(recipe, output=str(path), **kw)
    check_file(ctx, path, mem, dtype=str(dtype), threads=kw["threads"], buffer=kw["total_buffer_size"])
    ctx.seen("case", ("casts", str(dtype), n, kw["threads"], kw["total_buffer_size"]))


def skipped(ctx):
    """some keys have no value: the file still has no hole"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(2, 30)
    src = {f"zz.{rng.choice(['keep', 'drop'])}.{i}": rand_bits(rng, rand_shape(rng), torch.float16) for i in range(n)}
    recipe = lab.vm_skip(sd_mecha.model(src), "drop")
    path = tmp / "out.safetensors"
    kw = {"threads": rng.choice([0, 1, 3, 8]), "total_buffer_size": rng.choice([0, 50, 2**20]), "output_dtype": None, "merge_dtype": None, "merge_device": None, "check_finite": False}
    merge(recipe, output=path, **kw)
    check_file(ctx, path, {k: v for k, v in src.items() if "drop" not in k}, keys=list(src))
    ctx.seen("case", ("skipped", tuple(src), kw["threads"], kw["total_buffer_size"]))


def empty(ctx):
    """no key at all"""
    tmp = ctx.tmpdir()
    src = {"zz.drop": torch.ones(3)}
    path = tmp / "out.safetensors"
    merge(lab.vm_skip(sd_mecha.model(src), "drop"), output=path, threads=ctx.rng.choice([0, 2]))
    check_file(ctx, path, {})


SCENARIOS = [("produce", produce, 6), ("casts", casts, 2), ("skipped", skipped, 2)]
DIRECTED = [("empty", empty)]
