"""The result does not depend on threads, buffers or interleavings, and every key is produced exactly once."""
import collections
import collections.abc
import itertools
import threading
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from torch import Tensor
from mon import lab, dag, sched
from mon.util import merge, read_safetensors, raw, QuietBar, describe, rand_tensor, rand_bits, rand_shape, write_safetensors, FLOATS

ID = "C03"
RULE = ("the same recipe is merged sequentially (reference) and then with random thread counts, buffer sizes, tiny interpreter switch "
        "intervals and random delays injected at source lines of the tree under test; monitors record every evaluation of the root "
        "method and every write to the output. Non-trivial: at least two threads evaluated keys; distinct by the recorded "
        "interleaving (thread, key) of evaluations")
ASSUMPTIONS = ["CPython's interpreter lock: interleavings are explored at bytecode granularity",
               "merge methods are themselves deterministic"]
BUDGET = {"quick": (100000, 18), "thorough": (10**7, 1200)}
REQUIRED = {"parallel runs": 100, "interleavings": 60, "keys written once": 1000, "runs with unused configs": 20}

lab.register(lab.A, lab.BIG)
probe_log = None


@merge_method
def vm_probe(
    x: Parameter(StateDict[Tensor]),
    y: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    log = probe_log
    if log is not None:
        log.add("begin", key)
    res = x[key] + y[key]
    if log is not None:
        log.add("end", key)
    return res


class RecordingDict(collections.abc.MutableMapping):
    def __init__(self):
        self.data, self.lock, self.sets = {}, threading.Lock(), collections.Counter()

    def __setitem__(self, k, v):
        with self.lock:
            self.sets[k] += 1
            self.data[k] = v

    def __getitem__(self, k):
        return self.data[k]

    def __delitem__(self, k):
        raise AssertionError("merge() must not delete keys of the output")

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


def run_once(ctx, node, tmp, kw, kind, perturb, name):
    global probe_log
    bars = []

    def bar(*a, **k):
        bars.append(QuietBar(*a, **k))
        return bars[-1]
    probe_log = log = sched.Recorder()
    sets = None
    try:
        if perturb:
            with sched.perturbed(ctx.rng, intensity=perturb) as stats:
                out, sets = go(node, tmp, kw, kind, bar, name)
            ctx.count("injected delays", stats["delays"])
        else:
            out, sets = go(node, tmp, kw, kind, bar, name)
    finally:
        probe_log = None
    if bars:
        ctx.check(bars[0].updates == bars[0].total, f"the progress bar was told {bars[0].updates} of {bars[0].total} keys")
    return out, log, sets


def go(node, tmp, kw, kind, bar, name):
    if kind == "file":
        path = tmp / f"{name}.safetensors"
        merge(node, output=path, tqdm=bar, **kw)
        return read_safetensors(path)[0], None
    out = RecordingDict()
    merge(node, output=out, tqdm=bar, **kw)
    return dict(out.data), out.sets


def compare_runs(ctx, base, out, what):
    ctx.check(set(base) == set(out), f"{what}: different keys than the sequential merge",
              missing=sorted(set(base) - set(out))[:5], extra=sorted(set(out) - set(base))[:5])
    for k, v in base.items():
        if v.dtype != out[k].dtype or tuple(v.shape) != tuple(out[k].shape) or raw(v) != raw(out[k]):
            ctx.fail(f"{what}: key {k!r} differs from the sequential merge", expected=describe(v), actual=describe(out[k]))
        ctx.count("values compared")


def case(ctx, make, runs):
    rng, tmp = ctx.rng, ctx.tmpdir()
    node, text, extra_kw = make(ctx, rng, tmp)
    fresh = node if callable(node) else lambda: node
    base, log, _ = run_once(ctx, fresh(), tmp, dict(threads=0, total_buffer_size=2**24, **extra_kw), "dict", 0, "base")
    ctx.check({e[0] for e in log.events} <= {threading.get_ident()}, "threads=0: methods ran in other threads than that of the caller", recipe=text[:800])
    for i in range(runs):
        kw = dict(threads=rng.choice([1, 2, 2, 3, 4, 8, 8, 16]), total_buffer_size=rng.choice([0, 1, 7, 64, 300, 1000, 4096, 2**16, 2**22]), **extra_kw)
        kind = rng.choice(["file", "file", "dict"])
        perturb = rng.choice([0, 0.02, 0.1, 0.3])
        what = f"threads={kw['threads']} buffer={kw['total_buffer_size']} to a {kind}"
        ctx.note(recipe=text[:800], run=what)
        out, log, sets = run_once(ctx, fresh(), tmp, kw, kind, perturb, f"o{i}")
        compare_runs(ctx, base, out, what)
        if text.startswith("fresh"):
            ctx.count("runs with unused configs")
        ctx.check(log.threads() <= kw["threads"], f"{what}: methods ran in {log.threads()} threads", recipe=text[:800])
        if log.threads() == kw["threads"]:
            ctx.count("all threads used")
        evaluated = collections.Counter(e[2] for e in log.events if e[1] == "end")
        for k in base:
            ctx.check(evaluated[k] == 1, f"{what}: key {k!r} was evaluated {evaluated[k]} times", recipe=text[:800])
        if sets is not None:
            for k in base:
                ctx.check(sets[k] == 1, f"{what}: key {k!r} was stored {sets[k]} times", recipe=text[:800])
        ctx.count("keys written once", len(base))
        if kw["threads"] > 1:
            ctx.count("parallel runs")
        if log.threads() > 1:
            sig = log.signature()
            ctx.seen("interleavings", sig)
            ctx.seen("case", (text, sig))
        ctx.count("threads seen", log.threads())


def make_dag(ctx, rng, tmp):
    gen = dag.Gen(rng, tmp, rng.choice([lab.A, lab.A, lab.A, lab.BIG]), p_missing=rng.choice([0, 0.2]), file=rng.choice([True, True, None]), n_models=3)
    a, an = gen.gen("weight", rng.randint(0, 2))
    b, bn = gen.gen("weight", rng.randint(0, 1))
    return vm_probe(an, bn), f"probe({a.text},{b.text})", {}


def make_blob(ctx, rng, tmp):
    """many tensors of mixed sizes from files that share readers"""
    n = rng.randint(5, 60)
    sizes = [rng.choice([1, 3, 17, 64, 257, 1000, 5000]) for _ in range(n)]
    dicts = []
    for j in range(2):
        keys = [f"zz.blob.{i}" for i in range(n)]
        d = {k: torch.frombuffer(bytearray(rng.randbytes(s * 2)), dtype=torch.int16).float() for k, s in zip(keys, sizes)}
        order = list(keys)
        rng.shuffle(order)
        path = write_safetensors(tmp / f"b{j}.safetensors", d, order=order)
        dicts.append(sd_mecha.model(path))
    return vm_probe(dicts[0], dicts[1]), f"blob({n})", {"merge_dtype": rng.choice([torch.float64, torch.float32, None]), "output_dtype": rng.choice([torch.float32, None])}


def make_shared(ctx, rng, tmp):
    """the same file used through several nodes and several times in the graph"""
    n = rng.randint(5, 40)
    d = {f"zz.same.{i}": rand_tensor(rng, (rng.choice([1, 5, 50, 700]),), torch.float32, ints=False) for i in range(n)}
    path = write_safetensors(tmp / "shared.safetensors", d)
    m = sd_mecha.model(path)
    other = sd_mecha.model(str(path))
    return vm_probe(sd_mecha.weighted_sum(m, other, 0.3), sd_mecha.n_average(m, m, other)), f"shared({n})", {}


def make_builtin(ctx, rng, tmp):
    """builtin methods that use linear algebra, on random floats"""
    n = rng.randint(4, 12)
    shapes = [rng.choice([(8,), (6, 5), (5, 6), (4, 3, 3, 3), ()]) for _ in range(n)]
    nodes = []
    for j in range(3):
        d = {f"zz.lin.{i}": rand_tensor(rng, s, torch.float32, ints=False) for i, s in enumerate(shapes)}
        nodes.append(sd_mecha.model(write_safetensors(tmp / f"l{j}.safetensors", d)))
    a, b, c = nodes
    kind = rng.choice(["slerp", "perp", "ties", "crossover", "median", "stock", "dropout"])
    mixed = {
        "slerp": lambda: sd_mecha.slerp(a, b, alpha=0.3),
        "perp": lambda: sd_mecha.add_perpendicular(a, b, c),
        "ties": lambda: sd_mecha.add_difference_ties(a, b, c, alpha=0.5, k=0.5),
        "crossover": lambda: sd_mecha.crossover(a, b, 0.4, 0.3),
        "median": lambda: sd_mecha.geometric_median(a, b, c),
        "stock": lambda: sd_mecha.n_average(a, b, c),
        "dropout": lambda: sd_mecha.dropout(a, b, c, seed=rng.randint(0, 1000), probability=0.5),
    }[kind]()
    return vm_probe(mixed, c), f"builtin:{kind}", {"output_dtype": torch.float32}


fresh_ids = itertools.count()


def make_fresh(ctx, rng, tmp):
    """a config object that was never used: what it knows about its keys is first asked for by several threads at once"""
    identifier = f"vmonfresh{next(fresh_ids)}-one"
    n = rng.choice([20, 60, 200])
    keys = {
        f"f.{i}.weight": {"shape": [1], "dtype": "float32", "optional": i % 7 == 3, "aliases": [f"f.other{i}.{j}" for j in range(rng.choice([0, 1, 1, 2]))]}
        for i in range(n)
    }
    names = list(keys)
    cut = rng.randint(1, n - 1)
    spec = lab.Spec(identifier, {"first": {k: keys[k] for k in names[:cut]}, "second": {k: keys[k] for k in names[cut:]}})
    paths = []
    for j in range(2):
        stored = {rng.choice(v["aliases"]) if v["aliases"] and rng.random() < 0.9 else k: rand_tensor(rng, (1,), torch.float32) for k, v in keys.items()}
        paths.append(write_safetensors(tmp / f"f{j}.safetensors", stored))

    def fresh():
        config = spec.config()
        a, b = (sd_mecha.model(p, config=config) for p in paths)
        return vm_probe(a, sd_mecha.weighted_sum(a, b, 0.25))
    return fresh, f"fresh({n})", {}


SCENARIOS = [
    ("fresh", lambda ctx: case(ctx, make_fresh, 3), 2),
    ("dag", lambda ctx: case(ctx, make_dag, 3), 3),
    ("blob", lambda ctx: case(ctx, make_blob, 4), 3),
    ("shared", lambda ctx: case(ctx, make_shared, 4), 2),
    ("builtin", lambda ctx: case(ctx, make_builtin, 3), 2),
]
