"""Reading a safetensors file gives the tensors it holds, whatever the order, the buffer and the thread."""
import json
import pathlib
import threading
import torch
import sd_mecha
from sd_mecha.extensions import model_formats
from mon import sched
from mon.util import merge, write_safetensors, rand_bits, rand_shape, same, describe, DTYPES, expect_same

ID = "C05"
RULE = ("random safetensors files (every dtype, arbitrary bits, empty and scalar tensors, header order unrelated to data order, metadata, padding) "
        "are read through the model format API and through merges, in random access order, by 1-6 threads at once, with every buffer size "
        "class; all returned tensors are kept alive and compared bit by bit when they are returned and again at the end; files cut at random places give the tensors that are left and errors for the others. "
        "Distinct by (file layout, buffer size, access order)")
ASSUMPTIONS = ["the file does not change while it is open"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 600)}
REQUIRED = {"tensors read": 5000, "missing key probes": 100, "concurrent reads": 1000, "damaged tensors refused": 100, "tensors read from damaged files": 100}


LETTERS = ["a", "b", "c", "a", "b", "c", "\u00e9", "\u6f22\u5b57", "\U0001f600", "a/b", 'q"', "\\", "sp ace", ""]


def rand_file(ctx, tmp, n=None, dtypes=None):
    rng = ctx.rng
    n = n if n is not None else rng.choice([1, 2, 8, 25])
    dtypes = dtypes or list(DTYPES.values())
    d = {}
    for i in range(n):
        shape = rand_shape(rng, allow_empty=True, max_side=6)
        if rng.random() < 0.15:
            shape = (rng.randint(100, 3000),)
        d[f"zz.{rng.choice(LETTERS)}.{i}"] = rand_bits(rng, shape, rng.choice(dtypes))
    order = list(d)
    rng.shuffle(order)
    # 8 byte dtypes first is what writers do, but readers must accept any order
    order.sort(key=lambda k: -d[k].element_size())
    if rng.random() < 0.5:
        by = {}
        for k in order:
            by.setdefault(d[k].element_size(), []).append(k)
        for v in by.values():
            rng.shuffle(v)
        order = [k for s in sorted(by, reverse=True) for k in by[s]]
    if rng.random() < 0.3:
        # files with tensors that are not aligned are valid too, and what merges of several dtypes write
        rng.shuffle(order)
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    metadata = rng.choice([None, {}, {"format": "pt"}, {"mecha_recipe": "version 0.1.0\nmodel \"x\"", "ü": "é\n"}])
    path = tmp / rng.choice(["m.safetensors", "with space.safetensors", "a.b.safetensors"])
    write_safetensors(path, d, metadata, order=order, header_pad=rng.choice([0, 1, 7, 64]), escaped=rng.random() < 0.5)
    return path, d, order, metadata


def reader(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    path, d, order, metadata = rand_file(ctx, tmp)
    buffer_size = rng.choice([0, 1, 8, 100, 1000, 5000, 2**20])
    details = {"buffer": buffer_size, "tensors": [(k, str(t.dtype), list(t.shape)) for k, t in d.items()][:10]}
    ctx.note(**details)
    sd = model_formats.resolve("single_file").get_read_dict(path, buffer_size)
    ctx.check(len(sd) == len(d), "wrong length", got=len(sd), **details)
    ctx.check(sorted(sd.keys()) == sorted(d) and sorted(iter(sd)) == sorted(d), "wrong keys", got=sorted(sd.keys()), **details)
    meta = dict(sd.metadata())
    ctx.check(set(meta) == set(d), "wrong metadata keys", **details)
    for k, m in meta.items():
        ctx.check(tuple(m.shape) == tuple(d[k].shape) and m.dtype == d[k].dtype, f"wrong metadata for {k!r}: {m}", **details)
    for bad in ["nope", "__metadata__", "", list(d)[0] + "x"]:
        try:
            sd[bad]
            ctx.fail(f"reading the missing key {bad!r} did not fail", **details)
        except KeyError:
            pass
        ctx.check(isinstance(KeyError(), KeyError) and bad not in sd, f"{bad!r} in state dict", **details)
        ctx.count("missing key probes")
    kept = []

    def read(keys):
        for k in keys:
            t = sd[k]
            if not same(t, d[k]):
                ctx.fail(f"wrong value read for {k!r}", expected=describe(d[k]), actual=describe(t), **details)
            kept.append((k, t))
            ctx.count("tensors read")

    accesses = [rng.choice(list(d)) for _ in range(rng.randint(1, 40))]
    mode = rng.choice(["random", "sequential", "items", "values"])
    if mode == "random":
        read(accesses)
    elif mode == "sequential":
        read(order)
        accesses = order
    elif mode == "items":
        for k, t in sd.items():
            ctx.check(same(t, d[k]), f"items() gave a wrong value for {k!r}", **details)
            kept.append((k, t))
    else:
        for k, t in zip(sd.keys(), sd.values()):
            ctx.check(same(t, d[k]), f"values() gave a wrong value for {k!r}", **details)
            kept.append((k, t))
    sd.close()
    for k, t in kept:
        ctx.check(same(t, d[k]), f"a tensor read earlier changed after other reads: {k!r}", actual=describe(t), expected=describe(d[k]), **details)
    ctx.seen("case", (details["tensors"], buffer_size, accesses))
    ctx.sample(**details, mode=mode)


def concurrent(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    path, d, order, _ = rand_file(ctx, tmp, n=rng.choice([4, 12, 30]))
    buffer_size = rng.choice([0, 8, 100, 1000, 2**20])
    sd = model_formats.resolve("single_file").get_read_dict(path, buffer_size)
    n_threads = rng.randint(2, 6)
    plans = [[rng.choice(list(d)) for _ in range(25)] for _ in range(n_threads)]
    results, errors = [[] for _ in plans], []
    log = sched.Recorder()
    barrier = threading.Barrier(n_threads)

    def work(i):
        try:
            barrier.wait()
            for k in plans[i]:
                t = sd[k]
                log.add(k)
                results[i].append((k, t, same(t, d[k])))
        except Exception as e:
            errors.append((i, e))

    with sched.perturbed(rng, rng.choice([0, 0.05, 0.3])):
        threads = [threading.Thread(target=work, args=(i,)) for i in range(n_threads)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for i, e in errors:
        ctx.fail(f"a concurrent read failed: {type(e).__name__}: {e}", buffer=buffer_size, plan=plans[i])
    for r in results:
        for k, t, ok in r:
            ctx.check(ok, f"a concurrent read returned a wrong value for {k!r}", buffer=buffer_size)
            ctx.check(same(t, d[k]), f"a tensor read concurrently changed later: {k!r}", buffer=buffer_size)
            ctx.count("concurrent reads")
            ctx.count("tensors read")
    sd.close()
    ctx.seen("case", log.signature())


def cut_short(ctx):
    """a file that lost its end gives the tensors that are left, and an error for the others, however often and in whatever order"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    path, d, order, _ = rand_file(ctx, tmp, n=rng.choice([2, 5, 12]))
    raw_file = path.read_bytes()
    size = 8 + int.from_bytes(raw_file[:8], "little")
    if len(raw_file) == size:
        return
    offsets = {k: v["data_offsets"] for k, v in json.loads(raw_file[8:size]).items() if k != "__metadata__"}
    left = rng.randint(0, len(raw_file) - size - 1)
    if rng.random() < 0.4:
        # only the last tensor is damaged
        left = max(left, len(raw_file) - size - rng.randint(1, 8))
    path.write_bytes(raw_file[:size + left])
    buffer_size = rng.choice([0, 0, 1, 8, 100, 1000, 2**20])
    keys = [rng.choice(list(d)) for _ in range(rng.randint(4, 25))]
    if rng.random() < 0.5:
        keys = [k for k in keys for _ in range(rng.choice([1, 2]))]
    details = {"buffer": buffer_size, "left": left, "offsets": offsets, "accesses": keys}
    ctx.note(**details)
    try:
        sd = model_formats.resolve("single_file").get_read_dict(path, buffer_size)
    except Exception:
        # refusing the file at once is as good
        ctx.count("cut files refused")
        return
    kept = []
    for k in keys:
        start, end = offsets[k]
        whole = end <= left
        try:
            t = sd[k]
        except Exception as e:
            ctx.check(not whole, f"{k!r} is in the part that is left, but reading it failed: {type(e).__name__}: {e}", **details)
            ctx.check(not isinstance(e, KeyError), f"the damaged tensor {k!r} was said to be missing", **details)
            ctx.count("damaged tensors refused")
            continue
        ctx.check(start == end or whole, f"{k!r} is cut short, but something was read", actual=describe(t), **details)
        ctx.check(same(t, d[k]), f"wrong value read for {k!r} from a damaged file", expected=describe(d[k]), actual=describe(t), **details)
        kept.append((k, t))
        ctx.count("tensors read from damaged files")
    for k, t in kept:
        ctx.check(same(t, d[k]), f"a tensor read earlier changed after other reads: {k!r}", **details)
    sd.close()
    ctx.seen("case", ("cut", sorted(offsets.values()), left, buffer_size, keys))


def through_merge(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    path, d, order, _ = rand_file(ctx, tmp)
    out = merge(sd_mecha.model(path), merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, check_finite=False,
                threads=rng.choice([0, 1, 4]), total_buffer_size=rng.choice([0, 1, 100, 4000, 2**20]))
    expect_same(ctx, d, out, "a model merged with nothing")
    ctx.count("tensors read", len(d))
    ctx.seen("case", ("merge", [(k, str(t.dtype), tuple(t.shape)) for k, t in d.items()]))


def huge_header(ctx):
    """thousands of keys"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    d = {f"zz.block.{i}.{'w' * rng.randint(0, 20)}": torch.full((2,), float(i)) for i in range(3000)}
    order = list(d)
    rng.shuffle(order)
    path = write_safetensors(tmp / "h.safetensors", d, order=order)
    sd = model_formats.resolve("single_file").get_read_dict(path, 1024)
    for k in rng.sample(list(d), 600):
        ctx.check(same(sd[k], d[k]), f"wrong value for {k!r}")
        ctx.count("tensors read")
    sd.close()
    ctx.seen("case", "huge")


SCENARIOS = [("reader", reader, 5), ("concurrent", concurrent, 3), ("through_merge", through_merge, 2), ("cut_short", cut_short, 2)]
DIRECTED = [("huge_header", huge_header)]
