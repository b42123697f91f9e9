"""The built-in conversions map every tensor to its place, whole and exactly once."""
import functools
import pathlib
import torch
import sd_mecha
from sd_mecha.extensions import model_configs
from mon import naming
from mon.util import merge, describe, rand_tensor, raw, write_safetensors, same

ID = "C16"
RULE = ("models of every built-in config that has a conversion, with unique numbers in every element, are converted and merged; each key of the result is compared with the "
        "tensor (or concatenation, transposition, reshape) that public naming conventions assign to it, and the keys of the result with those that can be computed; "
        "complete models with the declared shapes check that nothing is lost and that shapes are those of the target config. Distinct by (conversion, set of source keys, way)")
ASSUMPTIONS = ["naming conventions as written in mon/naming.py, independently of the conversions", "keys unknown to the source config are not judged"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 400)}
REQUIRED = {"tensors compared": 8000, "shapes compared": 5000, "partial models": 30, "conversions": 7}


@functools.cache
def keys_of(identifier):
    return dict(model_configs.resolve(identifier).keys())


@functools.cache
def plan(pair):
    """target key -> (source keys, transform), for the keys that the configs declare"""
    source, target = keys_of(pair[0]), keys_of(pair[1])
    res = {}
    for k in target:
        r = naming.CONVERSIONS[pair](k)
        if r is not None and all(s in source for s in r[0]):
            res[k] = r
    return res


def apply(transform, tensors):
    if transform == "cat":
        return torch.cat(tensors)
    t = tensors[0]
    if transform == "T":
        return t.T
    if transform == "conv":
        return t.reshape(*t.shape, 1, 1)
    return t


def tiny(rng, meta_shape, counter, dtype, key=""):
    shape = tuple(rng.randint(1, 2) if s > 1 else 1 for s in meta_shape)
    if "_proj." in key:  # these may be concatenated
        shape = shape[:1] + (2,) * len(shape[1:])
    n = 1
    for s in shape:
        n *= s
    t = torch.arange(counter[0], counter[0] + n, dtype=torch.float64).reshape(shape).to(dtype)
    counter[0] += n
    return t


def check_result(ctx, pair, source, out, what):
    expected = {k: r for k, r in plan(pair).items() if all(s in source for s in r[0])}
    missing, extra = [k for k in expected if k not in out], [k for k in out if k not in expected]
    ctx.check(not missing, f"{what}: {len(missing)} keys were lost", keys=missing[:10])
    ctx.check(not extra, f"{what}: {len(extra)} keys have a value although their source is missing", keys=extra[:10])
    for k, (names, transform) in expected.items():
        want = apply(transform, [source[n] for n in names])
        if not same(want.contiguous(), out[k].contiguous()):
            owner = [n for n, t in source.items() if tuple(t.shape) == tuple(out[k].shape) and torch.equal(t.double(), out[k].double())]
            ctx.fail(f"{what}: wrong tensor at {k!r}", expected=describe(want), actual=describe(out[k]), should_come_from=names, comes_from=owner[:3])
        ctx.count("tensors compared")


def complete(pair):
    def directed(ctx):
        rng = ctx.rng
        counter = [1]
        source = {k: tiny(rng, m.shape, counter, torch.float64, k) for k, m in keys_of(pair[0]).items()}
        node = sd_mecha.convert(sd_mecha.model(source, config=pair[0]), pair[1])
        out = merge(node, output_dtype=None, merge_dtype=None, threads=rng.choice([0, 4]), strict_weight_space=False, omit_ema=False)
        check_result(ctx, pair, source, out, f"{pair[0]} to {pair[1]}")
        # every element of the source is in the result exactly once
        if "blocks" not in pair[0]:
            used = {n for names, _ in plan(pair).values() for n in names}
            if pair != ("flux-flux", "flux-flux_diffuser_only"):
                ctx.check(used == set(source), f"{pair[0]} to {pair[1]}: the naming tables do not account for {sorted(set(source) - used)[:5]}")
            want = sorted(x for n in used for x in source[n].flatten().tolist())
            got = sorted(x for t in out.values() for x in t.flatten().tolist())
            ctx.check(want == got, f"{pair[0]} to {pair[1]}: the elements of the result are not those of the source, each once")
        ctx.count("elements conserved", counter[0] - 1)
        ctx.seen("conversions", pair)
    return directed


def shapes(pair):
    def directed(ctx):
        """the declared shapes, without their memory"""
        if "blocks" in pair[0]:
            ctx.count("shapes compared", 0)
            return
        source = {k: torch.empty(m.shape, device="meta", dtype=torch.float16) for k, m in keys_of(pair[0]).items()}
        node = sd_mecha.convert(sd_mecha.model(source, config=pair[0]), pair[1])
        out = merge(node, output_dtype=None, merge_dtype=None, merge_device=None, output_device=None, threads=0, strict_weight_space=False, check_finite=False, omit_ema=False)
        for k in plan(pair):
            ctx.check(k in out, f"{pair[0]} to {pair[1]}: {k!r} was lost")
            ctx.check(tuple(out[k].shape) == tuple(keys_of(pair[1])[k].shape),
                      f"{pair[0]} to {pair[1]}: {k!r} has the shape {tuple(out[k].shape)} instead of {tuple(keys_of(pair[1])[k].shape)}")
            ctx.count("shapes compared")
    return directed


def partial(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    pair = rng.choice([p for p in naming.CONVERSIONS if "blocks" not in p[0]])
    all_keys = list(keys_of(pair[0]))
    p = rng.choice([0.02, 0.3, 0.9, 0.98])
    names = [k for k in all_keys if rng.random() < p] or all_keys[:1]
    counter = [rng.randint(1, 1000)]
    dtype = rng.choice([torch.float64, torch.float32])
    source = {k: tiny(rng, keys_of(pair[0])[k].shape, counter, dtype, k) for k in names}
    way = rng.choice(["dict node", "file", "path given to convert", "mix"])
    kw = {}
    what = f"{pair[0]} to {pair[1]} ({way}, {len(names)} of {len(all_keys)} keys)"
    ctx.note(pair=pair, way=way, names=names[:20])
    if way == "dict node":
        node = sd_mecha.convert(sd_mecha.model(source, config=pair[0]), pair[1])
    elif way == "file":
        path = write_safetensors(tmp / "m.safetensors", source)
        node = sd_mecha.convert(sd_mecha.model(path, config=pair[0]), pair[1])
    elif way == "path given to convert":
        if p < 0.9:
            way = "file"
        write_safetensors(tmp / "m.safetensors", source)
        node = sd_mecha.convert(sd_mecha.model("m.safetensors", config="infer" if p >= 0.9 and "flux" not in pair[0] else pair[0]), pair[1], model_dirs=[tmp])
        kw["model_dirs"] = [tmp]
    else:  # converting a mix is mixing the converted ones
        other = {k: rand_tensor(rng, tuple(t.shape), dtype) for k, t in source.items()}
        a, b = sd_mecha.model(source, config=pair[0]), sd_mecha.model(other, config=pair[0])
        node = sd_mecha.convert(sd_mecha.weighted_sum(a, b, 0.5), pair[1])
        source = {k: 0.5 * source[k].double() + 0.5 * other[k].double() for k in source}
        dtype = torch.float64
    out = merge(node, output_dtype=dtype, threads=rng.choice([0, 4]), omit_ema=False, **kw)
    check_result(ctx, pair, {k: t.to(dtype) for k, t in source.items()}, out, what)
    ctx.count("partial models")
    ctx.seen("case", (pair, way, tuple(names[:50]), len(names)))


def weights(ctx):
    """block weights as parameters of a merge of converted models"""
    rng = ctx.rng
    pair = rng.choice([p for p in naming.CONVERSIONS if "blocks" in p[0]])
    blocks = list(keys_of(pair[0]))
    given = {b: rng.choice([0.0, 0.25, 0.5, 0.75, 1.0]) for b in blocks if rng.random() < 0.8} or {blocks[0]: 0.5}
    other = next(p for p in naming.CONVERSIONS if "blocks" in p[0] and p != pair)
    raw_dict = rng.random() < 0.5 and not (len(given) > 15 and set(given) <= set(keys_of(other[0])))  # these are more likely weights of the other config
    default = rng.choice([None, 0.125])
    target = list(keys_of(pair[1]))
    keys = [k for k in target if rng.random() < 0.15] + [target[0]]
    a = {k: torch.tensor([rng.randint(-9, 9) / 2]) for k in keys}
    b = {k: torch.tensor([rng.randint(-9, 9) / 2]) for k in keys}
    ma, mb = sd_mecha.model(a, config=pair[1]), sd_mecha.model(b, config=pair[1])
    alpha = sd_mecha.convert(dict(given), rng.choice([pair[1], ma])) if raw_dict else sd_mecha.convert(sd_mecha.literal(dict(given), config=pair[0]), pair[1])
    if default is not None:
        alpha = alpha | default
    out = merge(sd_mecha.weighted_sum(ma, mb, alpha), output_dtype=torch.float64, threads=rng.choice([0, 2]), omit_ema=False)
    expected = {}
    for k in set(keys):
        w = given.get(plan(pair)[k][0][0], default)
        if w is not None:
            expected[k] = (1 - w) * a[k].double() + w * b[k].double()
    ctx.check(set(out) == set(expected), f"block weights of {pair[0]}: wrong keys", extra=sorted(set(out) - set(expected))[:5], missing=sorted(set(expected) - set(out))[:5])
    for k, v in expected.items():
        ctx.check(torch.equal(v, out[k]), f"block weights of {pair[0]}: {k!r} was mixed with a wrong weight", weight=given.get(plan(pair)[k][0][0], default),
                  a=a[k].item(), b=b[k].item(), result=out[k].item())
        ctx.count("block weights")
    ctx.seen("case", (pair, tuple(given.items()), default, len(keys)))


def name(p):
    return "_".join(p).replace("-", "_")


DIRECTED = [(f"complete_{name(p)}", complete(p)) for p in naming.CONVERSIONS] + [(f"shapes_{name(p)}", shapes(p)) for p in naming.CONVERSIONS]
SCENARIOS = [("partial", partial, 3), ("weights", weights, 1)]
