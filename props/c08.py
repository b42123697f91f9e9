"""A failure while merging is reported as such: never swallowed, replaced or turned into a wrong output."""
import collections
import errno
import resource
import signal
import threading
import time
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict, StateDictKeyError
from torch import Tensor
from mon import lab, dag, sched
from mon.util import merge, write_safetensors, read_safetensors, rand_tensor, rand_bits, BadFile, same

ID = "C08"
RULE = ("faults of many kinds injected at a random key of a random recipe: exceptions raised by merge methods (with unique messages), by the output "
        "mapping, inputs cut at every region of the file or with a corrupted header, files growing past a size limit while writing, results that are no tensors; with random "
        "threads, delays and buffers. The call must raise, with the injected exception when there is one. Distinct by (fault, position, threads, "
        "recipe)")
ASSUMPTIONS = ["a missing key (StateDictKeyError) is not a failure: the key is skipped", "when several keys fail, any one of their errors may be reported"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 600)}
REQUIRED = {"faults injected": 200, "disk full reports": 10, "truncated inputs": 30, "method errors": 50, "results that are no tensors": 10}

lab.register(lab.A, lab.BIG)
state = {}


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


EXCEPTIONS = [Boom, ValueError, RuntimeError, KeyError, BoomKey, IndexError, TypeError, ZeroDivisionError, OSError, AssertionError, AttributeError, StopIteration, MemoryError]


class NotATensor:
    def __init__(self, value):
        self.value = value


@merge_method
def vm_c08(
    x: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    exc = state["fail"].get(key)
    if isinstance(exc, NotATensor):
        return exc.value
    if exc is not None:
        if state["late"]:
            x[key]
        raise exc
    res = x[key]
    if state["slow"]:
        time.sleep(state["slow"])
    return res


def method_error(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice([lab.A, lab.BIG])
    gen = dag.Gen(rng, tmp, spec, n_models=2, file=rng.choice([True, None]))
    ref, node = gen.gen("weight", rng.randint(0, 1))
    node = vm_c08(node)
    # the failing node may be anywhere in the graph
    wrap = rng.choice(["root", "root", "average", "fallback", "dict", "kwargs", "lora"])
    if wrap == "average":
        node = sd_mecha.n_average(gen.gen("weight", 1)[1], node)
    elif wrap == "fallback":
        node = node | gen.gen("weight", 1)[1]
    elif wrap == "dict":
        node = sd_mecha.literal({k: node for k in spec.keys})
    elif wrap == "kwargs":
        node = sd_mecha.weighted_sum(alpha=0.5, b=node, a=gen.gen("weight", 0)[1])
    keys = [k for k in gen.expected(ref) if "ema" not in k]
    if not keys:
        return
    failing = rng.sample(keys, 1 if rng.random() < 0.7 else min(3, len(keys)))
    cls = rng.choice(EXCEPTIONS)
    faults = {k: cls(f"injected {rng.getrandbits(40)} at {k}") for k in failing}
    state.update(fail=faults, slow=rng.choice([0, 0, 0.0005, 0.002]), late=rng.random() < 0.5)
    kw = {"threads": rng.choice([0, 1, 2, 4, 8]), "total_buffer_size": rng.choice([0, 100, 2**20])}
    out = rng.choice([None, tmp / "out.safetensors"])
    details = {"exception": cls.__name__, "keys": failing, "wrap": wrap, "recipe": ref.text[:300], "threads": kw["threads"], "to_file": out is not None}
    ctx.note(**details)
    ctx.count("faults injected")
    try:
        if rng.random() < 0.5:
            with sched.perturbed(rng, rng.choice([0.05, 0.2])):
                merge(node, output=out, **kw)
        else:
            merge(node, output=out, **kw)
    except Exception as e:
        ctx.check(any(e is f for f in faults.values()) or (type(e) is cls and any(e.args == f.args for f in faults.values())),
                  f"the merge raised {type(e).__name__}: {e} instead of the error of the failing method", **details)
        ctx.count("method errors")
    else:
        ctx.fail("a merge method failed, but the merge reported success", **details)
    ctx.seen("case", (cls.__name__, failing, wrap, ref.text, kw["threads"], out is None))
    ctx.sample(**details)


def no_tensor(ctx):
    """a method that gives no tensor for a key cannot be written to a file"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice([lab.A, lab.BIG])
    gen = dag.Gen(rng, tmp, spec, n_models=2, file=rng.choice([True, None]))
    ref, node = gen.gen("weight", rng.randint(0, 1))
    keys = [k for k in gen.expected(ref) if "ema" not in k]
    if not keys:
        return
    what = rng.choice(["None", "None", "text", "dictionary"])
    value = {"None": None, "text": "no tensor", "dictionary": {}}[what]
    failing = rng.sample(keys, min(len(keys), rng.choice([1, 1, 3])))
    state.update(fail={k: NotATensor(value) for k in failing}, slow=0, late=False)
    casts = rng.choice([{}, dict(merge_dtype=None, output_dtype=None, merge_device=None, output_device=None)])
    details = {"result": what, "keys": failing, "casts": not casts, "recipe": ref.text[:300]}
    ctx.note(**details)
    ctx.count("faults injected")
    try:
        merge(vm_c08(node), output=tmp / "out.safetensors", threads=rng.choice([0, 1, 4]), total_buffer_size=rng.choice([0, 100, 2**20]), **casts)
    except Exception:
        ctx.count("results that are no tensors")
    else:
        ctx.fail("a method gave no tensor for a key, but the merge to a file reported success", **details)
    ctx.seen("case", ("no tensor", what, failing, ref.text, not casts))


class BadOutput(dict):
    def __init__(self, after, exc):
        super().__init__()
        self.after, self.exc, self.lock = after, exc, threading.Lock()

    def __setitem__(self, k, v):
        with self.lock:
            if len(self) >= self.after:
                raise self.exc
            super().__setitem__(k, v)


def output_error(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, n_models=2)
    ref, node = gen.gen("weight", 1)
    n = len([k for k in gen.expected(ref) if "ema" not in k])
    if n == 0:
        return
    cls = rng.choice([Boom, ValueError, KeyError, OSError, MemoryError])
    exc = cls(f"injected {rng.getrandbits(40)}")
    ctx.count("faults injected")
    try:
        merge(node, output=BadOutput(rng.randrange(n), exc), threads=rng.choice([0, 1, 4]))
    except Exception as e:
        ctx.check(e is exc, f"the merge raised {type(e).__name__}: {e} instead of the error of the output", exception=cls.__name__)
    else:
        ctx.fail("the output failed, but the merge reported success", exception=cls.__name__)
    ctx.seen("case", ("output", cls.__name__, ref.text))


def truncated(ctx):
    """inputs that end too early: never read as something else"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(1, 12)
    d = {f"zz.t{i}": rand_bits(rng, (rng.choice([1, 3, 50, 900]),), torch.float32) for i in range(n)}
    order = list(d)
    rng.shuffle(order)
    path = write_safetensors(tmp / "t.safetensors", d, order=order)
    data = path.read_bytes()
    header = 8 + int.from_bytes(data[:8], "little")
    where = rng.choice(["size", "header", "data", "data", "data", "last"])
    cut = {"size": lambda: rng.randrange(8), "header": lambda: rng.randrange(8, header), "data": lambda: rng.randrange(header, len(data)), "last": lambda: len(data) - 1}[where]()
    path.write_bytes(data[:cut])
    other = sd_mecha.model({k: torch.zeros_like(v) for k, v in d.items()})
    node = sd_mecha.model(path)
    recipe = rng.choice([node, sd_mecha.n_average(other, node), sd_mecha.weighted_sum(other, node, 0.5), node | other])
    kw = {"threads": rng.choice([0, 1, 4]), "total_buffer_size": rng.choice([0, 1, 100, 2**20]), "check_finite": False}
    out = rng.choice([None, tmp / "out.safetensors"])
    details = {"cut": cut, "size": len(data), "header": header, "where": where, "buffer": kw["total_buffer_size"], "threads": kw["threads"]}
    ctx.note(**details)
    ctx.count("faults injected")
    ctx.count("truncated inputs")
    try:
        merge(recipe, output=out, **kw)
    except Exception:
        pass
    else:
        ctx.fail("a truncated input file was merged without any error", **details)
    ctx.seen("case", ("cut", cut, len(data), kw["total_buffer_size"], kw["threads"]))


def corrupted_header(ctx):
    """the header says something the file cannot hold"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    import json, struct
    d = {f"zz.t{i}": rand_bits(rng, (rng.choice([2, 3, 50]),), torch.float32) for i in range(rng.randint(1, 6))}
    path = write_safetensors(tmp / "t.safetensors", d)
    data = path.read_bytes()
    n = int.from_bytes(data[:8], "little")
    header = json.loads(data[8:8 + n])
    k = rng.choice(list(d))
    kind = rng.choice(["beyond", "shape", "dtype", "size", "json"])
    if kind == "beyond":
        header[k]["data_offsets"] = [len(data), len(data) + 4 * d[k].numel()]
    elif kind == "shape":
        header[k]["shape"] = [d[k].numel() + rng.choice([1, -1])]
    elif kind == "dtype":
        header[k]["dtype"] = rng.choice(["F99", "F64", "F16", ""])
    elif kind == "json":
        pass
    text = json.dumps(header).encode()
    if kind == "json":
        text = text[:-rng.randint(1, 3)]
    size = len(text) if kind != "size" else rng.choice([0, 2**62, len(text) - 2])
    path.write_bytes(struct.pack("<Q", size) + text + data[8 + n:])
    ctx.count("faults injected")
    details = {"kind": kind, "key": k}
    try:
        merge(sd_mecha.model(path), threads=rng.choice([0, 2]), total_buffer_size=rng.choice([0, 2**20]), check_finite=False)
    except (Exception, MemoryError):
        pass
    else:
        ctx.fail("an input with an impossible header was merged without any error", **details)
    ctx.seen("case", (kind, k, len(d)))


def disk_full(ctx):
    """the output outgrows a file size limit, as it would outgrow the disk"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(2, 20)
    d = {f"zz.t{i}": rand_bits(rng, (rng.choice([10, 500, 3000]),), torch.float32) for i in range(n)}
    total = sum(v.numel() * 4 for v in d.values())
    limit = rng.choice([rng.randint(1, total), total, 1, 100, total // 2])
    kw = {"threads": rng.choice([0, 1, 4]), "total_buffer_size": rng.choice([0, 100, 5000, 2**22]), "check_finite": False, "output_dtype": None, "merge_dtype": None, "merge_device": None}
    path = tmp / "out.safetensors"
    node = sd_mecha.model(d)

    def child():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
            merge(node, output=path, **kw)
        except OSError as e:
            return ("oserror", e.errno)
        return ("ok", None)
    details = {"limit": limit, "data": total, "threads": kw["threads"], "buffer": kw["total_buffer_size"]}
    ctx.note(**details)
    ctx.count("faults injected")
    status, value = ctx.fork(child, rlimits=[(resource.RLIMIT_FSIZE, (limit, limit))])
    if status == "exc":
        ctx.fail(f"running out of space raised {value[0]}: {value[1]} instead of an OSError", **details)
    ctx.check(status == "ok", f"the merge did not end normally: {status} {value}", **details)
    ctx.check(value[0] == "oserror", "the output could not be written, but the merge reported success", **details)
    ctx.check(value[1] in (errno.EFBIG, errno.ENOSPC), f"unexpected errno {value[1]}", **details)
    ctx.count("disk full reports")
    ctx.seen("case", ("disk", limit, total, kw["threads"], kw["total_buffer_size"]))


SCENARIOS = [("method_error", method_error, 6), ("output_error", output_error, 1), ("no_tensor", no_tensor, 1), ("truncated", truncated, 3), ("corrupted_header", corrupted_header, 1), ("disk_full", disk_full, 2)]
