"""Component selection, EMA exchange, casts and queries do what they say, key by key."""
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return
from sd_mecha.extensions import model_configs
from torch import Tensor
from mon import lab
from mon.util import merge, expect_same, same, describe, rand_tensor, captured_logs, FLOATS

ID = "C24"
RULE = ("pick_component and omit_component over small and built-in configs, models with missing and renamed keys, nested and on sub-recipes; exchange_ema over SD1 state dicts with and without "
        "counterparts, once and twice, and over other configs; casts to every dtype from every dtype, by name, by torch dtype and by the dtype of another recipe, and round casts. Every result is "
        "compared with what the config or torch says. Distinct by (operation, config, component or dtypes, present keys)")
ASSUMPTIONS = ["a key whose EMA counterpart is in the config but not in the model has no value to exchange"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"picked": 400, "omitted": 400, "partitions": 80, "ema keys exchanged": 60, "exchanges undone": 4, "casts": 300, "casts by query": 60, "refused": 60}

WEIGHT = {"shape": (3,), "dtype": "float32"}
# names of components and keys that contain each other
NESTED = [
    lab.Spec("vm24-nest", {c: {f"{c}.{i}": WEIGHT for i in range(2)} for c in ("te", "te2", "te_2", "t", "unet")}),
    lab.Spec("vm24-swap", {"a": {"b.a": WEIGHT, "b": WEIGHT}, "b": {"a": WEIGHT, "a.b": WEIGHT}, "a.b": {"c": WEIGHT}, "none": {}}),
]
lab.register(lab.A, lab.BIG, *NESTED)
RAW = {"threads": 0, "merge_dtype": None, "output_dtype": None, "omit_ema": False}


@merge_method
def vm24_double(x: Parameter(Tensor)) -> Return(Tensor):
    return x + x


class Builtin:
    """spec-like view of a registered config, with tensors of made up shapes"""
    def __init__(self, identifier):
        self.identifier = identifier
        config = model_configs.resolve(identifier)
        self.components = {n: dict.fromkeys(c.keys()) for n, c in config.components().items()}
        self.keys = {k: v for c in self.components.values() for k, v in c.items()}


def state(rng, spec):
    """(stored tensors, canonical tensors)"""
    if not isinstance(spec, Builtin):
        return lab.rand_state(rng, spec, p_missing=rng.choice([0, 0.3]), dtype=rng.choice([None, torch.float32]))
    keys = [k for c in spec.components.values() for k in rng.sample(list(c), min(len(c), rng.randint(0, 6)))]
    rng.shuffle(keys)
    d = {k: rand_tensor(rng, (2,), torch.float32) for k in keys}
    return d, dict(d)


def component(ctx):
    rng = ctx.rng
    large = rng.random() < 0.02  # selecting components of the built-in configs takes seconds
    spec = Builtin(rng.choice(BUILTINS)) if large else rng.choice([lab.A, lab.A, lab.A, lab.A, lab.BIG, *NESTED])
    comps = list(spec.components)
    stored, canon = state(rng, spec)
    node = lab.as_model(rng, stored, ctx.tmpdir(), spec.identifier, rng.choice(["weight", "delta"]))
    factor = 1
    if rng.random() < 0.3:
        node, factor = vm24_double(node), 2
    kw = RAW | {"threads": rng.choice([0, 2]), "strict_weight_space": False}
    if not any(spec.components[c] for c in comps) or not canon:
        return
    chosen, keep = rng.choice(comps), rng.random() < 0.5
    out = {}
    for name, method in (("pick", sd_mecha.pick_component), ("omit", sd_mecha.omit_component)):
        ctx.note(config=spec.identifier, component=chosen, operation=name, keys=sorted(canon)[:40])
        out[name] = merge(rng.choice([lambda: method(node, chosen), lambda: method(a=node, component=chosen)])(), **kw)
        want = {k: v * factor for k, v in canon.items() if (k in spec.components[chosen]) == (name == "pick")}
        expect_same(ctx, want, out[name], f"{name}_component({chosen!r}) over {spec.identifier}")
        ctx.count("picked" if name == "pick" else "omitted", max(1, len(want)))
    expect_same(ctx, {k: v * factor for k, v in canon.items()}, out["pick"] | out["omit"], "picked and omitted components together")
    ctx.check(not set(out["pick"]) & set(out["omit"]), "a key is both picked and omitted")
    ctx.count("partitions")
    if large:
        ctx.count("built-in configs")
        return
    other = rng.choice(comps)
    nested = merge(sd_mecha.omit_component(sd_mecha.omit_component(node, chosen), other), **kw)
    expect_same(ctx, {k: v * factor for k, v in canon.items() if k not in spec.components[chosen] and k not in spec.components[other]}, nested, f"omitting {chosen!r} and {other!r}")
    swapped = merge(sd_mecha.pick_component(node, chosen) | sd_mecha.omit_component(node, chosen), **kw)
    expect_same(ctx, {k: v * factor for k, v in canon.items()}, swapped, "a component and the rest")
    both = merge(sd_mecha.omit_component(sd_mecha.pick_component(node, chosen), chosen), **kw)
    ctx.check(not both, "keys remain of a component that is picked and omitted", keys=list(both)[:5])
    bad = rng.choice([chosen + "x", "", "nothing", chosen.upper() + "_"])
    if bad not in comps:
        method = rng.choice([sd_mecha.pick_component, sd_mecha.omit_component])
        try:
            merge(method(node, bad), **kw)
        except ValueError:
            ctx.count("refused")
        else:
            ctx.fail(f"the component {bad!r} that {spec.identifier} lacks is accepted")
    ctx.seen("case", ("component", spec.identifier, chosen, tuple(sorted(canon))))
    ctx.sample(config=spec.identifier, component=chosen, keys=len(canon))


BUILTINS = ["sd1-ldm", "sdxl-sgm", "flux-flux", "sd3-comfyui", "sdxl-diffusers_unet_only", "sd1-kohya"]
EMA = {}


def ema_pairs():
    """weight key -> its EMA key, from the names in the config"""
    if not EMA:
        config = model_configs.resolve("sd1-ldm")
        ema = {k[len("model_ema."):]: k for k in config.components()["ema"].keys()}
        for k in config.keys():
            if k.startswith("model.") and (flat := k[len("model."):].replace(".", "")) in ema:
                EMA[k] = ema[flat]
    return EMA


def exchange(ctx):
    rng = ctx.rng
    if rng.random() < 0.3:
        spec = rng.choice([lab.A, Builtin("sdxl-sgm")])
        stored, canon = state(rng, spec)
        if canon:
            out = merge(sd_mecha.exchange_ema(lab.as_model(rng, stored, ctx.tmpdir(), spec.identifier)), **RAW)
            expect_same(ctx, canon, out, f"exchange_ema over {spec.identifier}, which names no counterparts")
        return
    pairs = ema_pairs()
    weights = rng.sample(list(pairs), rng.randint(1, 8))
    config = model_configs.resolve("sd1-ldm")
    lonely = [k for k in config.keys() if k not in pairs and k not in set(pairs.values())]
    others = rng.sample(lonely, min(len(lonely), rng.randint(0, 5)))
    keys = [k for w in weights for k in (w, pairs[w]) if rng.random() < 0.85] + others
    rng.shuffle(keys)
    d = {k: rand_tensor(rng, (3,), torch.float32) for k in keys}
    if not d:
        return
    node = lab.as_model(rng, d, ctx.tmpdir(), "sd1-ldm", rng.choice(["weight", "delta"]))
    kw = RAW | {"strict_weight_space": False}
    once = sd_mecha.exchange_ema(node)
    back = {v: k for k, v in pairs.items()}
    want = {k: d[c] for k in config.keys() if (c := pairs.get(k, back.get(k, k))) in d}
    ctx.note(keys=sorted(d))
    out = merge(once, **kw)
    expect_same(ctx, want, out, "exchange_ema")
    ctx.count("ema keys exchanged", sum(1 for k in want if k in pairs or k in back))
    if rng.random() < 0.4:
        expect_same(ctx, d, merge(sd_mecha.exchange_ema(once), **kw), "exchanging twice")
        ctx.count("exchanges undone")
    if rng.random() < 0.3:  # the usual way: the ema weights become the weights
        out = merge(once | node, **(kw | {"omit_ema": True}))
        expect_same(ctx, {k: v for k, v in (d | want).items() if k not in config.components()["ema"].keys()}, out, "exchange_ema without the ema keys")
    ctx.seen("case", ("ema", tuple(sorted(d))))


NAMES = {n: getattr(torch, n) for n in ("float64", "int64", "float32", "int32", "float16", "bfloat16", "int16", "float8_e4m3fn", "float8_e5m2", "int8", "bool", "uint8", "uint16", "uint32", "uint64")}
WIDE = [n for n in NAMES if n not in ("uint16", "uint32", "uint64")]


def spread(rng, d):
    """values that the narrower dtypes round, or cannot hold"""
    for k, v in d.items():
        if v.dtype.is_floating_point and v.numel():
            wide = v.double() * 10.0 ** torch.tensor([rng.choice([-30, -8, -5, -2, 0, 2, 4, 5, 9, 40]) for _ in range(v.numel())], dtype=torch.float64).reshape(v.shape)
            d[k] = wide.to(v.dtype)


def casts(ctx):
    rng = ctx.rng
    src = [NAMES[rng.choice(WIDE)] for _ in range(2)]
    spec = lab.A
    keys = rng.sample(list(spec.keys), rng.randint(1, 4))
    a, b = ({k: rand_tensor(rng, tuple(spec.keys[k]["shape"]), s, ints=rng.random() < 0.5, lo=0 if rng.random() < 0.5 else -8) for k in keys} for s in src)
    if rng.random() < 0.5:
        spread(rng, a)
    na, nb = (lab.as_model(rng, d, ctx.tmpdir(), spec.identifier) for d in (a, b))
    name = rng.choice(list(NAMES))
    how = rng.choice(["name", "torch", "literal", "method", "query", "query", "twice", "device", "none", "bad"])
    target = NAMES[name]
    if how == "name":
        node = na.to(dtype=name)
    elif how == "torch":
        node = na.to(dtype=target, device=rng.choice([None, "cpu", torch.device("cpu")]))
    elif how == "literal":
        node = na.to(dtype=sd_mecha.literal(name))
    elif how == "method":
        node = rng.choice([lambda: sd_mecha.cast(na, None, name), lambda: sd_mecha.cast(na, dtype=name, device="cpu"), lambda: sd_mecha.cast(dtype=name, a=na)])()
    elif how == "query":
        node, target = na.to(dtype=sd_mecha.get_dtype(nb), device=rng.choice([None, sd_mecha.get_device(nb)])), src[1]
        ctx.count("casts by query")
    elif how == "twice":
        name2 = rng.choice(WIDE)
        node = na.to(dtype=name2).to(dtype=name)
        a = {k: v.to(NAMES[name2]) for k, v in a.items()}
    elif how == "device":
        node, target = na.to(device=rng.choice(["cpu", sd_mecha.get_device(nb)])), src[0]
    elif how == "none":
        node, target = na.to(), src[0]
    else:
        bad = rng.choice(["float", "torch.float32", "", "f32", "complex64", "Float32"])
        try:
            merge(na.to(dtype=bad), **RAW)
        except ValueError:
            ctx.count("refused")
        else:
            ctx.fail(f"the dtype {bad!r} is accepted")
        return
    ctx.note(how=how, sources=[str(s) for s in src], target=str(target))
    out = merge(node, **RAW)
    expect_same(ctx, {k: v.to(target) for k, v in a.items()}, out, f"a cast ({how}) of {src[0]} to {target}")
    ctx.count("casts")
    ctx.seen("case", ("cast", how, src, target))
    # the dtypes of merge() are casts too
    kw = RAW | {"merge_dtype": rng.choice([None, *FLOATS]), "output_dtype": rng.choice([None, *NAMES.values()])}
    mid = lambda v: v.to(kw["merge_dtype"]) if kw["merge_dtype"] else v
    end = lambda v: v.to(kw["output_dtype"]) if kw["output_dtype"] else v
    d = {k: rand_tensor(rng, tuple(spec.keys[k]["shape"]), src[0]) for k in keys}
    if rng.random() < 0.5:
        spread(rng, d)
    node = lab.as_model(rng, d, ctx.tmpdir(), spec.identifier)
    out = merge(node, **kw)
    expect_same(ctx, {k: end(mid(v)) for k, v in d.items()}, out, f"merge_dtype={kw['merge_dtype']}, output_dtype={kw['output_dtype']} over {src[0]}")


SCENARIOS = [("component", component, 12), ("exchange", exchange, 1), ("casts", casts, 12)]
