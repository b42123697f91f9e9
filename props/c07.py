"""Files and threads are released when an operation ends, whether it succeeds or fails."""
import contextlib
import gc
import os
import struct
import json
import resource
import signal
import threading
import time
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from torch import Tensor
from mon import lab, dag, sched
from mon.util import merge, write_safetensors, rand_tensor

ID = "C07"
RULE = ("merges, conversions and explicit open/close of inputs, each ending normally or with a fault injected at a random stage (missing or corrupt "
        "input, rejected option, failing method, failing output, failing progress bar); the process's open file descriptors and threads are read "
        "from the operating system before and after. Distinct by (operation, fault, graph, threads)")
ASSUMPTIONS = []
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 400)}
REQUIRED = {"failures injected": 100, "inputs seen open": 100, "operations": 200, "recipes per key": 40, "files checked while the exception is referenced": 100}

lab.register(lab.A, lab.B)
state = {}


class Boom(Exception):
    pass


@merge_method
def vm_c07(
    x: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    res = x[key]
    state["open"] = max(state.get("open", 0), len(open_files(state["tmp"])))
    if key == state.get("fail"):
        raise state["exc"]("injected")
    return res


def open_files(tmp):
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(str(tmp)):
            res.append(target)
    return res


class BadOutput(dict):
    def __init__(self, after):
        super().__init__()
        self.after = after

    def __setitem__(self, k, v):
        if len(self) >= self.after:
            raise Boom("output")
        super().__setitem__(k, v)


class BadBar:
    def __init__(self, *args, **kwargs):
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def update(self, *_):
        self.n += 1
        if self.n == 2:
            raise Boom("progress")

    def set_postfix(self, *args, **kwargs):
        pass


FAULTS = ["none", "none", "none", "missing_input", "bad_header", "empty_file", "truncated", "method", "method_key", "output", "bar", "threads", "space",
          "out_dir", "mandatory", "bad_extension", "cannot_infer", "same_file", "odd_dtype", "dtype", "keyboard", "disk_full", "disk_full"]


@contextlib.contextmanager
def limited_files(limit):
    """files cannot grow over the limit, as if the disk was full"""
    if limit is None:
        yield
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    previous = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, previous)


def operation(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    fault = rng.choice(FAULTS)
    spec = lab.A
    gen = dag.Gen(rng, tmp, spec, p_missing=0.1 if fault == "mandatory" else 0, file=rng.choice([True, True, None]), n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 2))
    stored, _ = lab.rand_state(rng, spec)
    probe = sd_mecha.model(write_safetensors(tmp / "probe.safetensors", stored), config=spec.identifier)
    node = rng.choice([
        lambda: sd_mecha.n_average(node, vm_c07(probe)),
        lambda: lab.vm_keywords(node, y=vm_c07(probe), z=probe),
    ])()
    state.clear()
    state.update(tmp=tmp, exc=Boom)
    kw = {"threads": rng.choice([0, 1, 2, 8]), "total_buffer_size": rng.choice([0, 100, 2**20])}
    out = rng.choice([None, tmp / "out.safetensors"])
    expect_error = fault != "none"
    if fault == "missing_input":
        node = sd_mecha.n_average(node, sd_mecha.model(tmp / "nope.safetensors", config=spec.identifier))
    elif fault in ("bad_header", "empty_file", "truncated"):
        bad = tmp / "bad.safetensors"
        write_safetensors(bad, stored)
        data = bad.read_bytes()
        bad.write_bytes({"bad_header": data[:8] + rng.choice([b"{]", b"\xff\xfe"]) + data[10:],
                         "empty_file": data[:rng.randint(0, 7)], "truncated": data[:-1]}[fault])
        node = sd_mecha.n_average(node, sd_mecha.model(bad, config=spec.identifier))
        kw["omit_ema"] = False
    elif fault in ("method", "method_key"):
        state["fail"] = rng.choice([k for k in spec.keys if "ema" not in k])
        state["exc"] = rng.choice([Boom, ValueError, RuntimeError, KeyError, MemoryError]) if fault == "method" else KeyError
    elif fault == "keyboard":
        if kw["threads"] != 0:
            kw["threads"] = 0
        state["fail"] = rng.choice([k for k in spec.keys if "ema" not in k])
        state["exc"] = KeyboardInterrupt
    elif fault == "output":
        out = BadOutput(rng.randint(0, 3))
    elif fault == "bar":
        kw["tqdm"] = BadBar
    elif fault == "threads":
        kw["threads"] = rng.choice([-1, -5, 1.5])
    elif fault == "space":
        node = node - node
    elif fault == "out_dir":
        out = tmp / "no" / "such" / "dir" / "out.safetensors"
    elif fault == "mandatory":
        kw["check_mandatory_keys"] = True
        incomplete = dict(stored)
        for name in spec.names("a.main.1.weight"):
            incomplete.pop(name, None)
        node = sd_mecha.n_average(node, sd_mecha.model(write_safetensors(tmp / "inc.safetensors", incomplete), config=spec.identifier))
    elif fault == "bad_extension":
        p = tmp / "model.ckpt"
        p.write_bytes(b"x")
        node = sd_mecha.n_average(node, sd_mecha.model(p, config=spec.identifier))
    elif fault == "cannot_infer":
        p = write_safetensors(tmp / "unk.safetensors", {f"qq.{i}": torch.ones(1) for i in range(5)})
        node = sd_mecha.n_average(node, sd_mecha.model(p, config="infer"))
    elif fault == "odd_dtype":
        # no config can be determined
        header = json.dumps({k: {"dtype": "F4" if i == 2 else "I8", "shape": [1], "data_offsets": [i, i + 1]} for i, k in enumerate(rng.choice([stored, {f"qq.{i}": 0 for i in range(5)}]))}).encode()
        p = tmp / "odd.safetensors"
        p.write_bytes(struct.pack("<Q", len(header)) + header + bytes(len(stored)))
        node = sd_mecha.n_average(*rng.sample([node, sd_mecha.model(p, config=rng.choice([None, None, spec.identifier]))], 2))
    elif fault == "same_file":
        out = tmp / "probe.safetensors"
    elif fault == "dtype":
        node = node.to(dtype="no_such_dtype")
    details = {"fault": fault, "recipe": ref.text[:300], "threads": kw["threads"], "to_file": str(out)}
    ctx.note(**details)

    gc.collect()
    fds0, threads0 = len(os.listdir("/proc/self/fd")), threading.active_count()
    raised = None
    limit = None
    if fault == "disk_full":
        out = tmp / "out.safetensors"
        limit = rng.choice([0, 8, 50, 100])
    try:
        with limited_files(limit), sched.perturbed(rng, 0.1) if rng.random() < 0.3 else contextlib.nullcontext():
            merge(node, output=out, **kw)
    except (Exception, KeyboardInterrupt) as e:
        raised = type(e).__name__
        # the exception is still referenced here: it must not be what keeps files open
        left = open_files(tmp)
        ctx.check(not left, f"files are still open when {raised} reaches the caller of merge", files=left, **details)
        ctx.check(threading.active_count() == threads0, f"threads still run when {raised} reaches the caller of merge", **details)
        ctx.count("files checked while the exception is referenced")
        from mon.core import Violation, HarnessError
        if isinstance(e, (Violation, HarnessError)):
            raise
        message = str(e)
    finally:
        for f in list(state):
            if f not in ("open",):
                state.pop(f)
    gc.collect()
    if expect_error:
        ctx.check(raised is not None, f"the fault {fault!r} did not make the merge fail", **details)
        ctx.count("failures injected")
    elif raised is not None:
        ctx.fail(f"a valid merge failed: {raised}: {message}", **details)
    left = open_files(tmp)
    ctx.check(not left, f"files are still open after the merge ({'failed: ' + raised if raised else 'succeeded'})", files=left, **details)
    fds1 = len(os.listdir("/proc/self/fd"))
    ctx.check(fds1 <= fds0, f"{fds1 - fds0} file descriptors leaked", **details)
    ctx.check(threading.active_count() == threads0, f"{threading.active_count() - threads0} threads still alive after the merge", **details)
    ctx.count("operations")
    if state.get("open"):
        ctx.count("inputs seen open")
    ctx.seen("case", (fault, ref.text, kw["threads"], str(type(out))))
    ctx.seen("faults", fault)
    ctx.sample(**details)


def scoped(ctx):
    """open_input_dicts closes what it opened, and the nodes can be opened again"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = lab.A
    gen = dag.Gen(rng, tmp, spec, file=True, n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 3))
    fds0 = len(os.listdir("/proc/self/fd"))
    for _ in range(rng.randint(1, 3)):
        fail = rng.random() < 0.5
        try:
            with sd_mecha.open_input_dicts(node, [tmp], rng.choice([0, 100])):
                if open_files(tmp):
                    ctx.count("inputs seen open")
                if fail:
                    raise Boom
        except Boom:
            ctx.count("failures injected")
        gc.collect()
        ctx.check(not open_files(tmp), "inputs are still open outside of open_input_dicts", recipe=ref.text[:300], fail=fail)
    target = rng.choice([spec.identifier, lab.B.identifier, "no_such-config"])
    try:
        sd_mecha.convert(node, target)
        ctx.check(target == spec.identifier, f"convert() to {target} did not fail")
    except ValueError:
        ctx.count("failures injected")
        ctx.check(not open_files(tmp), "inputs are still open when convert() raises", recipe=ref.text[:300], target=target)
        ctx.check(target != spec.identifier, "convert() to the same config failed")
    gc.collect()
    ctx.check(not open_files(tmp), "inputs are still open after convert()", recipe=ref.text[:300], target=target)
    ctx.check(len(os.listdir("/proc/self/fd")) <= fds0, "file descriptors leaked")
    ctx.count("operations")
    ctx.seen("case", ("scoped", ref.text, target))


def per_key(ctx):
    """recipes given per key: each of their inputs is closed"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = lab.A
    stored, _ = lab.rand_state(rng, spec)
    keys = [k for k in spec.keys]
    rng.shuffle(keys)
    keys = keys[:rng.randint(1, len(keys))]
    models = {k: sd_mecha.model(write_safetensors(tmp / f"m{i}.safetensors", stored), config=spec.identifier) for i, k in enumerate(keys)}
    values = {}
    mixed = rng.random() < 0.3
    for k in keys:
        m = models[k]
        values[k] = rng.choice([lambda: m, lambda: sd_mecha.n_average(m, m), lambda: sd_mecha.weighted_sum(m, b=rng.choice(list(models.values())), alpha=0.5)])()
    if mixed:  # tensors and recipes in the same dictionary
        values = {"a.not.a.key": torch.ones(1)} | values
    node = sd_mecha.literal(values, config=spec.identifier, merge_space="weight")
    base = sd_mecha.model(stored, config=spec.identifier)
    how = rng.choice(["bare", "nested", "fallback", "kwarg"])
    kw = {"threads": rng.choice([0, 2]), "total_buffer_size": rng.choice([0, 100, 2**20])}
    node = {"bare": lambda: node, "nested": lambda: sd_mecha.n_average(base, node), "fallback": lambda: node | base,
            "kwarg": lambda: sd_mecha.weighted_sum(base, b=node, alpha=0.25)}[how]()
    state.clear()
    state.update(tmp=tmp, exc=Boom)
    fail = rng.random() < 0.4
    if fail:
        state["fail"] = rng.choice([k for k in spec.keys if "ema" not in k])
        node = sd_mecha.n_average(vm_c07(base), node | base)
    elif rng.random() < 0.5:
        node = sd_mecha.n_average(vm_c07(base), node | base)
    details = {"how": how, "mixed": mixed, "keys": keys, "fail": fail}
    ctx.note(**details)
    if rng.random() < 0.3:
        with sd_mecha.open_input_dicts(node, [tmp], kw["total_buffer_size"]):
            opened = len(open_files(tmp))
        ctx.check(opened == len(models), f"open_input_dicts opened {opened} of {len(models)} inputs", **details)
        ctx.count("inputs seen open")
    else:
        raised = None
        try:
            merge(node, **kw)
        except Boom as e:
            raised = e
            ctx.check(not open_files(tmp), "files are still open when the exception reaches the caller of merge", files=open_files(tmp), **details)
            ctx.count("files checked while the exception is referenced")
        ctx.check(fail == (raised is not None), f"the merge {'did not fail' if fail else 'failed'}", **details)
        if fail:
            ctx.count("failures injected")
        if state.get("open", 0) > 0:
            ctx.count("inputs seen open")
    state.clear()
    gc.collect()
    ctx.check(not open_files(tmp), "inputs of recipes given per key are still open", files=open_files(tmp), **details)
    for m in models.values():
        ctx.check(m.state_dict is None, "an input that was closed still refers to its opened file", **details)
    ctx.count("operations")
    ctx.count("recipes per key")
    ctx.seen("case", ("per_key", how, mixed, len(keys), fail))


def repeated(ctx):
    """a long history of merges does not accumulate descriptors or threads"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    d = {f"zz.{i}": rand_tensor(rng, (4,), torch.float32) for i in range(5)}
    nodes = [sd_mecha.model(write_safetensors(tmp / f"r{i}.safetensors", d)) for i in range(3)]
    fds0, threads0 = len(os.listdir("/proc/self/fd")), threading.active_count()
    for i in range(15):
        merge(sd_mecha.n_average(*nodes), threads=rng.choice([0, 3]), output=rng.choice([None, tmp / "o.safetensors"]))
        ctx.count("operations")
    gc.collect()
    ctx.check(len(os.listdir("/proc/self/fd")) <= fds0, "descriptors accumulate over merges")
    ctx.check(threading.active_count() == threads0, "threads accumulate over merges")


SCENARIOS = [("operation", operation, 6), ("scoped", scoped, 2), ("per_key", per_key, 2)]
DIRECTED = [("repeated", repeated)]
