"""A merge computes in merge_dtype and gives its values in output_dtype, wherever an input is used."""
import pathlib
import threading
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from sd_mecha.extensions import model_configs
from torch import Tensor
from mon.util import merge, same, describe, rand_tensor, read_safetensors, write_safetensors

ID = "C34"
RULE = ("random graphs whose methods are probes (one, several, keyword only and variable numbers of tensors, whole models read under own and other keys) over models, dictionaries, tensors, numbers, "
        "recipes per key, fallbacks and explicit casts, with inputs of every dtype, are merged under random merge and output dtypes; every tensor that a probe receives and every value of the output is "
        "compared, dtype and bits, with an independent evaluation. Distinct by graph, dtypes and output")
ASSUMPTIONS = ["numbers given to tensor parameters are exact in float32", "the only device of this sandbox is the cpu"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"tensors received": 5000, "received by keyword": 500, "received through views": 500, "values output": 1000, "explicit casts": 100, "defaults": 50, "files written": 50}

N = 4
KEYS = [f"k.{i}" for i in range(N)]
SHAPE = (3,)
model_configs.register_aux(model_configs.from_yaml(
    "identifier: vm34-one\ncomponents:\n  main:\n" + "".join(f"    {k}: {{shape: [3], dtype: float32, aliases: [other.{i}]}}\n" for i, k in enumerate(KEYS))))
FLOATS = [torch.float64, torch.float32, torch.float16, torch.bfloat16]
STORED = FLOATS + [torch.float32, torch.float16, torch.int64, torch.int32, torch.int8, torch.uint8, torch.bool, torch.float8_e4m3fn, torch.float8_e5m2]
NAME = {torch.float64: "float64", torch.float32: "float32", torch.float16: "float16", torch.bfloat16: "bfloat16", torch.int64: "int64", torch.int32: "int32", torch.int8: "int8"}

NUMBERS = [0.75, -3.5, 7, 1 + 2**-10, 2**-20 - 2**-30, 2**20 + 1, -2047]  # exact in float32

LOG, LOCK = {}, threading.Lock()


def got(uid, key, param, t):
    with LOCK:
        LOG.setdefault((uid, key, param), []).append(t if isinstance(t, Tensor) else repr(t))


def made(mode, values):
    """what a probe gives"""
    first = values[0]
    if mode == "first":
        return first
    if mode == "last":
        return values[-1]
    if mode == "negated":
        return (-first.to(torch.float64)).to(first.dtype) if first.dtype.is_floating_point else first
    if mode == "wide":
        return sum(v.to(torch.float64) for v in values)
    return first.to(torch.float32)  # "single"


MODES = ["first", "first", "last", "negated", "wide", "single"]


@merge_method
def vm34_one(x: Parameter(Tensor), uid: Parameter(int), mode: Parameter(str), **kwargs) -> Return(Tensor, "weight"):
    got(uid, kwargs["key"], "x", x)
    return made(mode, [x])


@merge_method
def vm34_two(x: Parameter(Tensor), y: Parameter(Tensor), uid: Parameter(int), mode: Parameter(str), **kwargs) -> Return(Tensor, "weight"):
    got(uid, kwargs["key"], "x", x)
    got(uid, kwargs["key"], "y", y)
    return made(mode, [x, y])


@merge_method
def vm34_keyword(x: Parameter(Tensor), *, y: Parameter(Tensor), z: Parameter(StateDict[Tensor]), uid: Parameter(int), mode: Parameter(str), **kwargs) -> Return(Tensor, "weight"):
    z = z[kwargs["key"]]
    got(uid, kwargs["key"], "x", x)
    got(uid, kwargs["key"], "y", y)
    got(uid, kwargs["key"], "z", z)
    return made(mode, [x, y, z])


@merge_method
def vm34_many(*xs: Parameter(Tensor), uid: Parameter(int), mode: Parameter(str), **kwargs) -> Return(Tensor, "weight"):
    for i, x in enumerate(xs):
        got(uid, kwargs["key"], i, x)
    return made(mode, list(xs))


@merge_method
def vm34_views(x: Parameter(StateDict[Tensor]), y: Parameter(StateDict[Tensor]), step: Parameter(int), uid: Parameter(int), mode: Parameter(str), **kwargs) -> Return(Tensor, "weight"):
    key = kwargs["key"]
    a, b, c = x[key], x[other(key, step)], y[key]
    for name, v in zip("xoy", (a, b, c)):
        got(uid, key, name, v)
    return made(mode, [a, b, c])


def other(key, step):
    return KEYS[(KEYS.index(key) + step) % N]


class Graph:
    def __init__(self, ctx, mid):
        self.ctx, self.rng, self.mid = ctx, ctx.rng, mid
        self.expected = {}  # (uid, key, param) -> tensor
        self.uid = 0
        self.text = []
        self.nodes = []

    def cast(self, t):
        return t if self.mid is None else t.to(self.mid)

    def tensor(self, dtype):
        rng = self.rng
        if dtype.is_floating_point and dtype.itemsize > 1:
            return torch.tensor([rng.gauss(0, 1) * 10.0**rng.choice([0, 0, 0, -4, 3]) for _ in range(3)], dtype=torch.float64).to(dtype)
        return rand_tensor(rng, SHAPE, dtype, lo=0, hi=100)

    def leaf(self):
        """(values by key, node)"""
        rng = self.rng
        kind = rng.choice(["model", "model", "file", "file", "dict", "tensor", "number", "per_key"])
        if self.mid is None and kind in ("number", "per_key"):
            kind = "model"  # the dtype of numbers is the one of the merge
        self.text.append(kind)
        if kind in ("model", "file", "dict"):
            one = rng.choice(STORED)
            stored = {k: self.tensor(one if rng.random() < 0.6 else rng.choice(STORED)) for k in KEYS}
            values = {k: self.cast(t) for k, t in stored.items()}
            names = {(f"other.{i}" if rng.random() < 0.3 else k): stored[k] for i, k in enumerate(KEYS)}
            if kind == "dict":
                return values, sd_mecha.literal(names, config="vm34-one", merge_space="weight")
            if kind == "file":
                path = write_safetensors(self.ctx.tmpdir() / f"m{len(self.text)}.safetensors", names)
                return values, sd_mecha.model(path, config="vm34-one")
            return values, sd_mecha.model(names, config="vm34-one")
        if kind == "tensor":
            t = self.tensor(rng.choice(FLOATS))
            return {k: self.cast(t) for k in KEYS}, sd_mecha.literal(t, config="vm34-one", merge_space="weight")
        if kind == "number":
            v = rng.choice(NUMBERS)
            value = self.cast(torch.tensor(v, dtype=torch.float32))
            return {k: value for k in KEYS}, sd_mecha.literal(v, config="vm34-one", merge_space="weight")
        numbers = {k: rng.choice(NUMBERS) for k in KEYS}
        return ({k: self.cast(torch.tensor(v, dtype=torch.float32)) for k, v in numbers.items()},
                sd_mecha.literal(numbers, config="vm34-one", merge_space="weight"))

    def expect(self, uid, param, values, key_of=lambda k: k):
        for k in KEYS:
            self.expected[(uid, k, param)] = values[key_of(k)]

    def gen(self, depth):
        rng = self.rng
        if self.nodes and rng.random() < 0.15:
            return rng.choice(self.nodes)  # shared
        if depth <= 0:
            res = self.leaf()
        else:
            res = self.op(depth)
        if rng.random() < 0.3:
            self.nodes.append(res)
        return res

    def op(self, depth):
        rng = self.rng
        kind = rng.choice(["one", "two", "keyword", "keyword", "many", "views", "fallback", "missing", "recipes", "cast", "builtin"])
        self.text.append(kind)
        self.uid += 1
        uid, mode = self.uid, rng.choice(MODES)
        sub = lambda: self.gen(depth - 1)
        if kind == "one":
            x, xn = sub()
            self.expect(uid, "x", x)
            return self.result(mode, [x]), vm34_one(xn, uid, mode)
        if kind == "two":
            (x, xn), (y, yn) = sub(), sub()
            self.expect(uid, "x", x)
            self.expect(uid, "y", y)
            return self.result(mode, [x, y]), rng.choice([lambda: vm34_two(xn, yn, uid, mode), lambda: vm34_two(xn, y=yn, uid=uid, mode=mode), lambda: vm34_two(mode=mode, y=yn, x=xn, uid=uid)])()
        if kind == "keyword":
            (x, xn), (y, yn), (z, zn) = sub(), sub(), sub()
            for p, v in zip("xyz", (x, y, z)):
                self.expect(uid, p, v)
            self.ctx.count("received by keyword", 2 * N)
            return self.result(mode, [x, y, z]), vm34_keyword(xn, y=yn, z=zn, uid=uid, mode=mode)
        if kind == "many":
            parts = [sub() for _ in range(rng.choice([1, 2, 3, 4, 9]))]
            for i, (v, _) in enumerate(parts):
                self.expect(uid, i, v)
            return self.result(mode, [v for v, _ in parts]), vm34_many(*[n for _, n in parts], uid=uid, mode=mode)
        if kind == "views":
            (x, xn), (y, yn) = sub(), sub()
            step = rng.randint(0, N - 1)
            moved = {k: x[other(k, step)] for k in KEYS}
            for p, v in zip("xoy", (x, moved, y)):
                self.expect(uid, p, v)
            self.ctx.count("received through views", 3 * N)
            return self.result(mode, [x, moved, y]), vm34_views(xn, yn, step, uid, mode)
        if kind == "fallback":
            (x, xn), (_, yn) = sub(), sub()
            return x, xn | yn
        if kind == "missing":
            stored = {k: self.tensor(rng.choice(STORED)) for k in KEYS if rng.random() < 0.6}
            y, yn = sub()
            if not stored:
                return y, yn
            return {k: self.cast(stored[k]) if k in stored else y[k] for k in KEYS}, sd_mecha.model(stored, config="vm34-one") | yn
        if kind == "recipes":
            parts = [sub() for _ in range(rng.randint(1, 3))]
            parts = [(v, vm34_one(n, -1, "first")) for v, n in parts]
            chosen = {k: rng.choice(parts) for k in KEYS}
            return {k: chosen[k][0][k] for k in KEYS}, sd_mecha.literal({k: c[1] for k, c in chosen.items()})
        if kind == "cast":
            x, xn = sub()
            target = rng.choice(list(NAME)[:4])
            self.ctx.count("explicit casts")
            return {k: v.to(target) for k, v in x.items()}, xn.to(dtype=rng.choice([target, NAME[target]]))
        # a built-in that gives its first argument
        (x, xn), (_, yn) = sub(), sub()
        return x, sd_mecha.weighted_sum(vm34_one(xn, -1, "first"), vm34_one(yn, -1, "first"), alpha=0.0)

    def result(self, mode, values):
        return {k: made(mode, [v[k] for v in values]) for k in KEYS}


def graphs(ctx):
    rng = ctx.rng
    mid = rng.choice([None, ..., torch.float64, torch.float32, torch.float32, torch.float16, torch.bfloat16])
    end = rng.choice([None, ..., torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.int32])
    kw = {}
    if mid is not ...:
        kw["merge_dtype"] = mid
    if end is not ...:
        kw["output_dtype"] = rng.choice([end, NAME[end]]) if end is not None else None
    if mid is ... or end is ...:
        ctx.count("defaults")
    mid, end = torch.float64 if mid is ... else mid, torch.float16 if end is ... else end
    for option in ("merge_device", "output_device"):
        if rng.random() < 0.5:
            kw[option] = rng.choice([None, "cpu", torch.device("cpu")])
    graph = Graph(ctx, mid)
    values, node = graph.op(rng.randint(1, 3))
    node = vm34_one(node, -1, "first")
    if end == torch.int32 and not all(v.isfinite().all() and v.abs().max() < 2**31 for v in (v.to(torch.float64) for v in values.values())):
        kw["output_dtype"] = end = None  # such casts are not defined
    kw["threads"] = rng.choice([0, 0, 2])
    if rng.random() < 0.2:
        kw["fallback_model"] = graph.gen(1)[1]
        if kw["fallback_model"].merge_space.identifier != "weight" or isinstance(kw["fallback_model"], sd_mecha.recipe_nodes.LiteralRecipeNode):
            del kw["fallback_model"]
    details = {"graph": " ".join(graph.text), "options": {k: str(v) for k, v in kw.items() if k != "fallback_model"}}
    ctx.note(**details)
    LOG.clear()
    path = ctx.tmpdir() / "out.safetensors" if rng.random() < 0.3 else None
    out = merge(node, output=path, **kw)
    if path is not None:
        out = read_safetensors(path)[0]
        ctx.count("files written")
    for (uid, key, param), tensors in LOG.items():
        if uid == -1:
            continue
        want = graph.expected[(uid, key, param)]
        for t in tensors:
            ctx.check(same(t, want), f"a method received a wrong tensor for {key!r}, argument {param!r}",
                      received=describe(t), expected=describe(want), merge_dtype=str(mid), **details)
            ctx.count("tensors received")
    ctx.check(set(out) == set(KEYS), "the output has other keys", observed=sorted(out), **details)
    for key, value in values.items():
        want = value.to(end) if end is not None else value
        ctx.check(same(out[key], want), f"the output has a wrong value for {key!r}", observed=describe(out[key]), expected=describe(want), output_dtype=str(end), **details)
        ctx.check(out[key].device.type == "cpu", "the output is on another device")
        ctx.count("values output")
    ctx.seen("case", (tuple(graph.text), str(mid), str(end), path is None))
    ctx.sample(**details)


SCENARIOS = [("graphs", graphs, 1)]
