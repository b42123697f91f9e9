"""Operations leave the state that belongs to the whole process as they found it."""
import contextlib
import copy
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings
import numpy
import torch
import yaml
import sd_mecha
from sd_mecha import merge_method, Parameter, Return
from sd_mecha.extensions import model_configs, merge_methods, merge_spaces, model_formats
from torch import Tensor
from mon import lab, dag, methods, sched
from mon.util import merge, rand_tensor, captured_logs

ID = "C26"
RULE = ("everything in the process that belongs to no single library (warning filters, logging, YAML dumpers and loaders, torch and numpy modes and random states, environment, working directory, "
        "signal handlers, standard streams, interpreter settings) and the registries of the library are recorded before and after merges, conversions, serialization and config dumps that succeed, "
        "fail, run in several worker threads or in several user threads at once under injected delays. A method that runs inside records them meanwhile. Distinct by (operations, threads, outcome)")
ASSUMPTIONS = ["truncate_rank and copy_distribution, which take no seed, draw from torch's random state"]
RANDOM = ("truncate_rank", "copy_distribution")
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"operations": 800, "snapshots compared": 400, "operations at once": 200, "operations that failed": 80, "built-in methods": 60}

lab.register(lab.A, lab.B)
INSIDE = []


@merge_method
def vm26_look(x: Parameter(Tensor)) -> Return(Tensor):
    INSIDE.append(modes())
    return x


@merge_method
def vm26_boom(x: Parameter(Tensor)) -> Return(Tensor):
    raise ArithmeticError("vm26")


def modes():
    """state that a method can feel"""
    return {
        "warning filters": list(warnings.filters),
        "torch default dtype": torch.get_default_dtype(),
        "torch default device": str(torch.empty(0).device),
        "numpy errors": numpy.geterr(),
        "working directory": os.getcwd(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
    }


def snapshot(rng_state=True):
    res = modes()
    res |= {
        "warnings.showwarning": warnings.showwarning,
        "warnings.defaultaction": getattr(warnings, "defaultaction", None),
        "yaml dumper": {c.__name__: dict(c.yaml_representers) | {"multi": dict(c.yaml_multi_representers)} for c in (yaml.SafeDumper, yaml.Dumper)},
        "yaml text": yaml.safe_dump({"a": [1, 2], "b": {"shape": [1], "dtype": "x"}}),
        "yaml loader": {c.__name__: dict(c.yaml_constructors) for c in (yaml.SafeLoader, yaml.Loader, yaml.FullLoader)},
        "torch gradients": (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled()),
        "torch modes": (torch.are_deterministic_algorithms_enabled(), torch.get_float32_matmul_precision(), torch.is_autocast_enabled(), torch.get_num_threads(), torch.get_num_interop_threads(),
                        torch.get_flush_denormal() if hasattr(torch, "get_flush_denormal") else denormal()),
        "torch printing": repr(torch.tensor([1 / 3, 1e10])),
        "numpy printing": numpy.get_printoptions(),
        "environment": dict(os.environ),
        "umask": umask(),
        "import path": list(sys.path),
        "arguments": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "exception hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook),
        "tracing": (sys.gettrace(), sys.getprofile(), threading._trace_hook, threading._profile_hook),
        "stack size": threading.stack_size(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1)},
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.disabled, logging.root.manager.disable, logging.getLoggerClass(), list(logging.root.filters)),
        "logging levels": {n: l.level for n, l in list(logging.root.manager.loggerDict.items()) if isinstance(l, logging.Logger) and l.level},
        "model configs": sorted(c.identifier for c in model_configs.get_all()),
        "built-in methods": (id(open), id(print), id(yaml.safe_dump), id(torch.tensor), id(torch.load)),
        "merge methods": sorted(m.identifier for m in merge_methods.get_all()),
        "merge spaces": sorted(s.identifier for s in merge_spaces.get_all()),
        "model formats": sorted(f.identifier for f in model_formats.get_all()),
    }
    if rng_state:
        res |= {
            "random state": random.getstate(),
            "numpy random state": repr(numpy.random.get_state()),
            "torch random state": torch.random.get_rng_state().numpy().tobytes(),
        }
    return res


def denormal():
    return float(torch.tensor([1e-40]) * 1.0) != 0


def umask():
    mask = os.umask(0)
    os.umask(mask)
    return mask


def judge(ctx, before, after, what):
    for k in before:
        ctx.check(before[k] == after[k], f"{what}: the process's {k} changed", before=before[k] if len(repr(before[k])) < 3000 else None, after=after[k] if len(repr(after[k])) < 3000 else None)
    ctx.count("snapshots compared")


# ----- operations

def op_merge(rng, tmp, tag):
    gen = dag.Gen(rng, tmp, lab.A, file=rng.random() < 0.8, p_missing=rng.choice([0, 0.2]))
    _, node = gen.gen("weight", rng.randint(1, 3))
    if rng.random() < 0.3:
        node = vm26_look(node)
    kw = {"threads": rng.choice([0, 2, 4, 8]), "total_buffer_size": rng.choice([0, 300, 2**16]), "merge_dtype": rng.choice([None, torch.float64]), "strict_weight_space": False, "check_finite": rng.random() < 0.5,
          "omit_extra_keys": rng.random() < 0.7}
    if rng.random() < 0.4:
        kw["output"] = tmp / f"out{tag}.safetensors"
    return lambda: merge(node, **kw)


def op_fail(rng, tmp, tag):
    stored, _ = lab.rand_state(rng, lab.A)
    node = lab.as_model(rng, stored, tmp, lab.A.identifier)
    kind = rng.choice(["method", "missing", "corrupt", "space", "output", "options"])
    kw = {"threads": rng.choice([0, 2, 8]), "total_buffer_size": 300}
    if kind == "method":
        node = vm26_boom(node)
    elif kind == "missing":
        node = sd_mecha.weighted_sum(node, sd_mecha.model(tmp / "nowhere.safetensors"))
    elif kind == "corrupt":
        path = tmp / f"bad{tag}.safetensors"
        path.write_bytes(b"\x10\0\0\0\0\0\0\0{not json........")
        node = sd_mecha.weighted_sum(node, sd_mecha.model(path))
    elif kind == "space":
        node = node - node
    elif kind == "output":
        kw["output"] = tmp / "no" / "such" / "dir.safetensors"
    else:
        kw["threads"] = -1
    return lambda: merge(node, **kw)


def op_text(rng, tmp, tag):
    gen = dag.Gen(rng, tmp, lab.A, serializable=True)
    _, node = gen.gen("weight", rng.randint(1, 3))
    broken = rng.random() < 0.3

    def run():
        text = sd_mecha.serialize(node)
        if broken:
            text = text + "\nmerge nothing &99"
        sd_mecha.deserialize(text.splitlines() if rng.random() < 0.5 else text)
    return run


def op_config(rng, tmp, tag):
    config = rng.choice([lab.A.config, lab.B.config, lab.BIG.config])()
    broken = rng.random() < 0.2

    def run():
        text = model_configs.to_yaml(config)
        if broken:
            model_configs.to_yaml({"a": object()})
        model_configs.from_yaml(text)
    return run


def op_convert(rng, tmp, tag):
    stored, _ = lab.rand_state(rng, lab.A)
    node = lab.as_model(rng, stored, tmp, rng.choice([lab.A.identifier, None]))
    target = rng.choice([lab.A.identifier, lab.A.identifier, lab.B.identifier, "unknown-one"])
    return lambda: sd_mecha.convert(node, target)


OPS = [op_merge, op_merge, op_merge, op_fail, op_text, op_config, op_convert]


def attempt(ctx, run, outcomes):
    try:
        run()
        outcomes.append("ok")
    except Exception as e:
        outcomes.append(type(e).__name__)


def quiet_root():
    # logging.warning() itself gives the root logger a handler if it has none
    if not logging.root.handlers:
        logging.root.addHandler(logging.NullHandler())


@contextlib.contextmanager
def unusual(rng):
    """modes that the user of the library has chosen"""
    saved = (torch.get_num_threads(), torch.get_default_dtype(), torch.are_deterministic_algorithms_enabled(), torch.get_float32_matmul_precision(),
             numpy.get_printoptions(), numpy.geterr(), sys.getrecursionlimit(), list(warnings.filters), denormal(), logging.root.level)
    chosen = []

    def choose(name, p, fn, *args, **kwargs):
        if rng.random() < p:
            fn(*args, **kwargs)
            chosen.append(name)
    try:
        choose("threads", 0.6, torch.set_num_threads, rng.randint(2, 6))
        choose("dtype", 0.2, torch.set_default_dtype, torch.float64)
        choose("deterministic", 0.2, torch.use_deterministic_algorithms, True, warn_only=True)
        choose("matmul", 0.3, torch.set_float32_matmul_precision, rng.choice(["high", "medium"]))
        choose("numpy printing", 0.3, numpy.set_printoptions, precision=3)
        choose("recursion", 0.3, sys.setrecursionlimit, saved[6] + rng.randint(1, 500))
        choose("warnings", 0.3, warnings.simplefilter, "always")
        choose("denormal", 0.2, torch.set_flush_denormal, True)
        choose("log level", 0.3, logging.root.setLevel, rng.choice([logging.DEBUG, logging.ERROR]))
        yield chosen
    finally:
        torch.set_num_threads(saved[0])
        torch.set_default_dtype(saved[1])
        torch.use_deterministic_algorithms(saved[2])
        torch.set_float32_matmul_precision(saved[3])
        numpy.set_printoptions(**{k: v for k, v in saved[4].items() if k != "override_repr"})
        numpy.seterr(**saved[5])
        sys.setrecursionlimit(saved[6])
        warnings.filters[:] = saved[7]
        warnings._filters_mutated()
        torch.set_flush_denormal(not saved[8])
        logging.root.setLevel(saved[9])


def with_unusual(scenario):
    def run(ctx):
        with unusual(ctx.rng) as chosen:
            ctx.note(modes=list(chosen))
            ctx.count("modes chosen by the user", len(chosen))
            scenario(ctx)
    return run


def alone(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    quiet_root()
    ops = [rng.choice(OPS) for _ in range(rng.randint(1, 3))]
    runs = [op(rng, tmp, i) for i, op in enumerate(ops)]
    ctx.note(operations=[o.__name__ for o in ops])
    INSIDE.clear()
    if rng.random() < 0.3:
        numpy.random.seed(rng.randrange(1000))
        torch.manual_seed(rng.randrange(1000))
    before = snapshot()
    outcomes = []
    for run in runs:
        attempt(ctx, run, outcomes)
    judge(ctx, before, snapshot(), f"{[o.__name__ for o in ops]} -> {outcomes}")
    for seen in INSIDE:
        judge(ctx, {k: before[k] for k in seen if k != "warning filters"}, seen, "inside a merge method")
    ctx.count("operations", len(ops))
    ctx.count("operations that failed", sum(o != "ok" for o in outcomes))
    ctx.seen("case", ([o.__name__ for o in ops], outcomes))


def at_once(ctx):
    """several user threads"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    quiet_root()
    n = rng.randint(2, 5)
    kind = rng.choice([None, None, op_config, op_merge, op_text])
    ops = [kind or rng.choice(OPS) for _ in range(n)]
    times = rng.randint(1, 4)
    dirs = [tmp / str(i) for i in range(n)]
    for d in dirs:
        d.mkdir()
    runs = [op(rng, d, i) for i, (op, d) in enumerate(zip(ops, dirs))]
    before = snapshot()
    barrier, outcomes = threading.Barrier(n), [[] for _ in range(n)]

    def go(i):
        barrier.wait()
        for _ in range(times):
            attempt(ctx, runs[i], outcomes[i])
    threads = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    with sched.perturbed(rng, intensity=rng.choice([0, 0.02, 0.1])):
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    judge(ctx, before, snapshot(), f"{[o.__name__ for o in ops]} at once")
    ctx.count("operations", n * times)
    ctx.count("operations at once", n * times)
    ctx.count("operations that failed", sum(o != "ok" for x in outcomes for o in x))
    ctx.seen("case", (sorted(o.__name__ for o in ops), [o[0] for o in outcomes]))


def builtin(ctx):
    """the built-in methods, whichever modes the user has chosen"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    quiet_root()
    name, make = rng.choice(methods.ALL)
    params, fn, count, spaces = make(rng)
    dtype = rng.choice([torch.float32, torch.float64])
    models = [lab.rand_state(rng, lab.A, dtype=dtype, ints=False)[0] for _ in range(count)]
    recipe = fn(*[lab.as_model(rng, m, tmp, lab.A.identifier, s) for m, s in zip(models, spaces)])
    ctx.note(method=name, parameters={k: str(v) for k, v in params.items()})
    if rng.random() < 0.5:
        torch.manual_seed(rng.randrange(1000))
        numpy.random.seed(rng.randrange(1000))
    chosen = {}
    before = snapshot(rng_state=name not in RANDOM)
    try:
        merge(recipe, threads=rng.choice([0, 2, 4]), strict_weight_space=False, merge_dtype=rng.choice([None, torch.float32, torch.float64]))
    except Exception as e:
        chosen["error"] = type(e).__name__
    judge(ctx, before, snapshot(rng_state=name not in RANDOM), f"a merge by {name}")
    ctx.count("built-in methods")
    ctx.seen("case", ("builtin", name))


SCENARIOS = [("alone", with_unusual(alone), 5), ("at_once", with_unusual(at_once), 4), ("builtin", with_unusual(builtin), 3)]
