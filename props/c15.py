"""Literal parameters: numbers, strings, tensors, dictionaries and block weights reach a method exactly, key by key."""
import pathlib
import threading
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from sd_mecha.extensions import model_configs
from torch import Tensor
from typing import TypeVar
from mon import lab
from mon.util import merge, describe, rand_tensor, raw, expect_same

ID = "C15"
RULE = ("probe methods with int, float, bool, str, tensor and state dict parameters are given random literals (raw, wrapped, per key dictionaries, "
        "dictionaries with a default, computed values, block weights that are converted) under random dtypes and threads; the probe records type and value of what it receives "
        "for every key, which is compared with the literal itself. Distinct by (parameter type, way to give it, value)")
ASSUMPTIONS = ["numbers given to tensor parameters may be rounded to float32 and then to the merge dtype",
               "a boolean parameter may receive the equal integer", "dictionaries hold values of one kind"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 400)}
REQUIRED = {"viewed values": 500, "values received": 3000, "exact numbers": 500, "tensors received": 500, "per key dictionaries": 200, "block weights": 200, "computed": 100, "whole numbers": 300}

T = TypeVar("T")
lab.register(lab.A)
LOG, LOCK = {}, threading.Lock()


def log(kind, key, value):
    with LOCK:
        LOG.setdefault((kind, key), []).append(value)


@merge_method
def vm15_int(x: Parameter(Tensor), v: Parameter(int), **kwargs) -> Return(Tensor):
    log("int", kwargs["key"], v)
    return x


@merge_method
def vm15_float(x: Parameter(Tensor), v: Parameter(float), **kwargs) -> Return(Tensor):
    log("float", kwargs["key"], v)
    return x


@merge_method
def vm15_bool(x: Parameter(Tensor), *, v: Parameter(bool), **kwargs) -> Return(Tensor):
    log("bool", kwargs["key"], v)
    return x


@merge_method
def vm15_str(x: Parameter(Tensor), v: Parameter(str), **kwargs) -> Return(Tensor):
    log("str", kwargs["key"], v)
    return x


@merge_method
def vm15_tensor(x: Parameter(Tensor), v: Parameter(Tensor, "param"), **kwargs) -> Return(Tensor):
    log("tensor", kwargs["key"], v)
    return x


@merge_method
def vm15_dict(x: Parameter(Tensor), v: Parameter(StateDict[Tensor], "param"), **kwargs) -> Return(Tensor):
    log("dict", kwargs["key"], v[kwargs["key"]])
    return x


@merge_method
def vm15_optional(x: Parameter(Tensor), i: Parameter(int) = None, *, s: Parameter(str) = None, f: Parameter(float) = None, **kwargs) -> Return(Tensor):
    log("none", kwargs["key"], (i, s, f))
    return x


METHODS = {"int": vm15_int, "float": vm15_float, "bool": vm15_bool, "str": vm15_str, "tensor": vm15_tensor, "dict": vm15_dict}


@merge_method
def vm15_views(x: Parameter(Tensor), f: Parameter(StateDict[float], "param"), *, i: Parameter(StateDict[int], "param"), **kwargs) -> Return(Tensor):
    # other keys than the one that is merged as well
    log("views", kwargs["key"], {k: (f.get(k), i.get(k)) for k in VIEWED})
    return x


VIEWED = []


def value(rng, kind):
    if kind == "int":
        return rng.choice([0, 1, -1, 2, 2049, 65505, 2**24 + 1, 2**31 - 1, 2**53 + 1, -2**60 - 1, rng.getrandbits(62), rng.randint(-1000, 1000)])
    if kind == "float":
        return rng.choice([0.0, 1.0, 0.1, 0.2, 1 / 3, 1e-9, -1e-30, 1e300, 123456789.123, rng.gauss(0, 1), rng.random(), 2.0**-40])
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "str":
        return rng.choice(["", "a", "0", "None", "é\n\"'", "x=1", "cpu", "float32", str(rng.random())])
    if rng.random() < 0.5:
        return rng.choice([0, 1, -3, 0.5, 0.1, 1e-3, -2.75, 1000.5, rng.gauss(0, 1), rng.random()])
    return rand_tensor(rng, rng.choice([(), (1,), (3,), (2, 2)]), rng.choice([torch.float32, torch.float64, torch.float16]), ints=rng.random() < 0.5)


def matches(kind, given, got, dtype):
    if kind == "int":
        return type(got) is int and got == given
    if kind == "float":
        return type(got) is float and got == given
    if kind == "bool":
        return not isinstance(got, Tensor) and got == given
    if kind == "str":
        return type(got) is str and got == given
    if not isinstance(got, Tensor):
        return False
    want = given if isinstance(given, Tensor) else torch.tensor(given, dtype=torch.float64)
    if dtype is not None:
        if got.dtype != dtype or tuple(got.shape) != tuple(want.shape):
            return False
        if isinstance(given, Tensor):
            return raw(got) == raw(want.to(dtype))
    elif isinstance(given, Tensor):
        return got.dtype == want.dtype and raw(got) == raw(want)
    if not got.dtype.is_floating_point or tuple(got.shape) != ():
        return False
    eps = 2**-23 + (torch.finfo(dtype).eps if dtype is not None else 0)
    return abs(got.item() - want.item()) <= eps * abs(want.item()) + 1e-7


def run(ctx, node, expected, kind, dtype, what):
    """expected: key -> literal; keys without one must not be in the result"""
    rng = ctx.rng
    LOG.clear()
    out = merge(node, merge_dtype=dtype, output_dtype=None, omit_ema=False, threads=rng.choice([0, 0, 1, 3]))
    ctx.check(set(out) == set(expected), f"{what}: the result has the keys {sorted(out)}, values were given for {sorted(expected)}")
    for key, given in expected.items():
        got = LOG.get((kind, key), [])
        ctx.check(len(got) == 1, f"{what}: the method ran {len(got)} times for {key!r}")
        if not matches(kind, given, got[0], dtype):
            ctx.fail(f"{what}: the method received a wrong value for {key!r}", given=describe(given), type_given=str(type(given)),
                     received=describe(got[0]), type_received=str(type(got[0])), merge_dtype=str(dtype))
        ctx.count("values received")
        ctx.count("exact numbers" if kind in ("int", "float") else "tensors received" if kind in ("tensor", "dict") else "others received")


def model_of(ctx, rng):
    stored, canon = lab.rand_state(rng, lab.A)
    return lab.as_model(rng, stored, ctx.tmpdir(), lab.A.identifier), canon


def call(kind, x, v):
    return METHODS[kind](x, v=v) if kind == "bool" else METHODS[kind](x, v)


def scalars(ctx):
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    kind = rng.choice(list(METHODS))
    v = value(rng, kind)
    way = rng.choice(["raw", "literal", "default of an empty model", "nested"])
    node = v
    if way == "literal" or way == "raw" and isinstance(v, Tensor):
        node = sd_mecha.literal(v)
    elif way == "nested":
        inner = "str" if kind == "int" else "int"
        node = sd_mecha.literal(v)
        x = call(inner, x, 5 if inner == "int" else "inner")
    elif way == "default of an empty model":
        key = rng.choice(list(canon))
        v2 = value(rng, kind)
        if isinstance(v, Tensor) or isinstance(v2, Tensor) or type(v2) is not type(v) or isinstance(v, (int, float)) and not isinstance(v, bool):
            way, node = "raw", sd_mecha.literal(v)  # numbers behind an operator are not literals of the parameter any more
        else:
            d = {key: v2}
            dtype = rng.choice([torch.float64, torch.float32, torch.bfloat16, None])
            ctx.note(kind=kind, way="dict|default", values=(v2, v))
            run(ctx, call(kind, x, sd_mecha.literal(d, config=lab.A.identifier) | v), {k: (v2 if k == key else v) for k in canon}, kind, dtype, f"{kind} dict|default")
            ctx.count("per key dictionaries")
            return
    dtype = rng.choice([torch.float64, torch.float64, torch.float32, torch.float16, torch.bfloat16, None])
    if kind in ("tensor", "dict") and dtype == torch.float16 and not isinstance(v, Tensor) and abs(v) > 1000:
        dtype = torch.float32
    ctx.note(kind=kind, way=way, value=describe(v), dtype=str(dtype))
    ctx.seen("case", (kind, way, describe(v), str(dtype)))
    run(ctx, call(kind, x, node), {k: v for k in canon}, kind, dtype, f"{kind} {way}")


def dicts(ctx):
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    kind = rng.choice(list(METHODS))
    keys = [k for k in canon if rng.random() < 0.7] or [next(iter(canon))]
    rng.shuffle(keys)
    first = value(rng, kind)
    d = {}
    for k in keys:
        v = value(rng, kind)
        while isinstance(v, Tensor) != isinstance(first, Tensor):
            v = value(rng, kind)
        d[k] = v
    stored = {}
    for k, v in d.items():  # under any accepted name
        stored[rng.choice(lab.A.names(k)) if rng.random() < 0.3 else k] = v
    dtype = rng.choice([torch.float64, torch.float64, torch.float32, torch.bfloat16, None])
    node = sd_mecha.literal(stored, config=lab.A.identifier)
    expected = dict(d)
    way = "dict"
    if kind in ("tensor", "dict") and rng.random() < 0.4:
        default = 0.25
        node = node | default
        expected = {k: d.get(k, default) for k in canon}
        way = "dict|default"
    elif kind in ("int", "float", "str") and rng.random() < 0.25:
        # a structural model with a raw dictionary
        x = sd_mecha.model({f"q.{i}": torch.ones(2) for i in range(5)})
        node = {f"q.{i}": value(rng, kind) for i in range(5)}
        expected = dict(node)
        way = "raw structural dict"
    ctx.note(kind=kind, way=way, values={k: describe(v) for k, v in d.items()}, dtype=str(dtype))
    ctx.seen("case", (kind, way, tuple((k, describe(v)) for k, v in expected.items()), str(dtype)))
    run(ctx, call(kind, x, node), expected, kind, dtype, f"{kind} {way}")
    ctx.count("per key dictionaries")


def none(ctx):
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    given = {"i": rng.choice([None, 0, 5]), "s": rng.choice([None, "", "t"]), "f": rng.choice([None, 0.0, 0.1])}
    passed = {k: v for k, v in given.items() if v is not None or rng.random() < 0.5}
    LOG.clear()
    merge(vm15_optional(x, **passed), omit_ema=False, threads=rng.choice([0, 2]))
    for k in canon:
        ctx.check(LOG[("none", k)] == [(given["i"], given["s"], given["f"])], f"optional parameters: given {given}, received {LOG[('none', k)]}")
        ctx.count("values received")


def computed(ctx):
    """a value that another method computes from tensors"""
    rng = ctx.rng
    from sd_mecha.extensions import merge_methods
    dtypes = {}
    stored, canon = {}, {}
    for k, meta in lab.A.keys.items():
        t = rand_tensor(rng, tuple(meta["shape"]), rng.choice([torch.float64, torch.float32, torch.float16, torch.bfloat16]))
        stored[k], dtypes[k] = t, str(t.dtype).split(".")[1]
    x = lab.as_model(rng, stored, ctx.tmpdir(), lab.A.identifier)
    y, _ = model_of(ctx, rng)
    LOG.clear()
    node = vm15_str(sd_mecha.cast(y, dtype=merge_methods.resolve("get_dtype")(x)), merge_methods.resolve("get_dtype")(x))
    out = merge(node, merge_dtype=None, output_dtype=None, omit_ema=False, threads=rng.choice([0, 2]))
    for k in stored:
        ctx.check(LOG[("str", k)] == [dtypes[k]], f"get_dtype of {k!r} was received as {LOG[('str', k)]}, it is {dtypes[k]}")
        ctx.check(str(out[k].dtype) == f"torch.{dtypes[k]}", f"cast to the dtype of another model: {k!r} is {out[k].dtype} instead of {dtypes[k]}")
        ctx.count("computed")
    ctx.seen("case", ("computed", tuple(dtypes.values())))


def whole(ctx):
    """whole numbers that only exist as elements of integer tensors"""
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    dtype = rng.choice([torch.int64, torch.int64, torch.int32, torch.uint8, torch.int16, torch.bool, torch.float64, torch.float32])
    info = None if dtype in (torch.bool, torch.float64, torch.float32) else torch.iinfo(dtype)
    ints = {}
    for k in lab.A.keys:
        v = rng.choice([0, 1]) if dtype == torch.bool else rng.randint(-2**53, 2**53) if dtype == torch.float64 else rng.randint(-2**24, 2**24) if info is None else \
            rng.choice([info.min, info.max, info.max - rng.randint(0, 100), rng.randint(info.min, info.max), 0, 1, min(info.max, 2**53 + 1), max(info.min, -2**53 - 1)])
        ints[k] = torch.tensor(v, dtype=dtype).reshape(rng.choice([(), (1,), (1, 1)]))
    v = sd_mecha.literal(dict(ints), config=lab.A.identifier)
    LOG.clear()
    merge(vm15_int(x, v), merge_dtype=None, output_dtype=None, omit_ema=False, threads=rng.choice([0, 2]), strict_weight_space=False)
    for k in canon:
        got = LOG[("int", k)]
        ctx.check(len(got) == 1 and type(got[0]) is int and got[0] == int(ints[k]), f"the whole number {int(ints[k])} ({dtype}) of {k!r} was received as {got}")
        ctx.count("whole numbers")
    ctx.seen("case", ("whole", str(dtype), tuple(int(t) for t in ints.values())))


def views(ctx):
    """whole dictionaries of numbers, looked at under any key"""
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    keys = list(lab.A.keys)
    given = [{k: value(rng, kind) for k in rng.sample(keys, rng.randint(1, len(keys)))} for kind in ("float", "int")]
    dtype = rng.choice([torch.float64, torch.float32, None])
    if rng.random() < .5:
        # whole numbers of the other kind arrive as the declared kind
        given = [{k: float(rng.randint(-1000, 1000)) for k in d} for d in given]
        nodes = [sd_mecha.literal({k: int(v) for k, v in d.items()}, config=lab.A.identifier) for d in given[:1]]
        nodes += [sd_mecha.literal(dict(d), config=lab.A.identifier) for d in given[1:]]
        given[1] = {k: int(v) for k, v in given[1].items()}
    else:
        nodes = [sd_mecha.literal(dict(d), config=lab.A.identifier) for d in given]
    LOG.clear()
    VIEWED[:] = rng.sample(keys, min(4, len(keys)))
    out = merge(vm15_views(x, nodes[0], i=nodes[1]), merge_dtype=dtype, output_dtype=None, omit_ema=False, threads=rng.choice([0, 2]))
    ctx.check(set(out) == set(canon), "views: the result has other keys than the model")
    for k in canon:
        for key, got in LOG[("views", k)][0].items():
            for kind, d, v in zip(("float", "int"), given, got):
                want = d.get(key)
                ctx.check(v == want and type(v) is type(want), f"the {kind} of {key!r} was received as {v!r} ({type(v).__name__}) while merging {k!r}, it is {want!r}")
                ctx.count("viewed values")
    ctx.seen("case", ("views", str(dtype), tuple(VIEWED), tuple(map(str, given))))


n_blocks = [0]


def blocks(ctx):
    """per block weights, converted to the config of the model"""
    rng = ctx.rng
    n_blocks[0] += 1
    tag = f"vmc15{ctx.scenario[0]}{ctx.index}x{n_blocks[0]}"
    names = [f"B{i:02}" for i in range(rng.randint(2, 5))]
    config = model_configs.from_yaml(
        f"identifier: {tag}-blocks\ncomponents:\n  main:\n" + "".join(f"    {tag}{b}: {{shape: [], dtype: float32}}\n" for b in names))
    model_configs.register(config)
    assign = {k: rng.choice(names) for k in lab.A.keys}

    @merge_method(identifier=f"{tag}_to_a", is_conversion=True)
    def conv(b: Parameter(StateDict[T], model_config=config), **kwargs) -> Return(T, model_config=lab.A.identifier):
        return b[tag + assign[kwargs["key"]]]

    kind = rng.choice(["tensor", "tensor", "dict", "str"])
    given = {b: (rng.choice(["p", "q", "r"]) if kind == "str" else rng.choice([0, 0.25, 0.5, 1.0, 1.5])) for b in names if rng.random() < 0.7}
    given = given or {names[0]: "p" if kind == "str" else 0.5}
    weights = {tag + b: v for b, v in given.items()}
    x, canon = model_of(ctx, rng)
    source = rng.choice(["dict", "literal"])
    node = sd_mecha.convert(weights if source == "dict" else sd_mecha.literal(weights, config=config.identifier), rng.choice([lab.A.identifier, x]))
    default = None
    if rng.random() < 0.5:
        default = "z" if kind == "str" else 0.125
        node = node | default
    expected = {k: given.get(assign[k], default) for k in canon}
    expected = {k: v for k, v in expected.items() if v is not None}
    ctx.note(kind=kind, weights=weights, assign=assign, default=default)
    ctx.seen("case", (kind, source, default, tuple(sorted(expected.items()))))
    run(ctx, call(kind, x, node), expected, kind, torch.float64, f"block weights ({kind}, {source})")
    if kind != "str":
        y, canon_y = model_of(ctx, rng)
        mixed = merge(sd_mecha.weighted_sum(x, y, node), output_dtype=torch.float64, omit_ema=False)
        want = {k: (1 - expected[k]) * canon[k].double() + expected[k] * canon_y[k].double() for k in expected}
        expect_same(ctx, want, mixed, "weighted_sum with block weights", weights=weights)
    ctx.count("block weights", len(expected))


def paths(ctx):
    """a path given where a model is expected is that model"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    from mon.util import write_safetensors
    d = {f"q.{i}": rand_tensor(rng, (3,), torch.float32) for i in range(4)}
    p = pathlib.Path(write_safetensors(tmp / "m.safetensors", d))
    out = merge(rng.choice([lambda: sd_mecha.weighted_sum(p, p, 0.5), lambda: p, lambda: sd_mecha.n_average(p, sd_mecha.model(p))])(), output_dtype=torch.float32)
    expect_same(ctx, d, out, "a path used as a model")


def empty(ctx):
    """an empty dictionary has no value for any key"""
    rng = ctx.rng
    x, canon = model_of(ctx, rng)
    kind = rng.choice(["tensor", "str", "int"])
    node = sd_mecha.literal({}, config=lab.A.identifier)
    run(ctx, call(kind, x, node), {}, kind, torch.float64, f"{kind} empty dict")
    if kind != "int":
        v = "d" if kind == "str" else 0.5
        run(ctx, call(kind, x, node | v), {k: v for k in canon}, kind, torch.float64, f"{kind} empty dict|default")


SCENARIOS = [("scalars", scalars, 5), ("dicts", dicts, 4), ("none", none, 1), ("computed", computed, 1), ("whole", whole, 1), ("views", views, 1), ("blocks", blocks, 3), ("paths", paths, 1), ("empty", empty, 1)]
