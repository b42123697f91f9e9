"""The interpolation and arithmetic methods compute their formulas."""
import numpy as np
import torch
import sd_mecha
from sd_mecha.extensions import merge_methods
from mon import numeric as nm
from mon.core import Skip

ID = "C20"
RULE = ("each method is merged over models with random tensors (scalars, vectors, wide and tall matrices, convolutions, zeros, equal, parallel and opposite tensors) with random "
        "parameters, given once or per key, and every element is compared with a numpy reference written from the method's definition, at a relative tolerance of 1e-9 in float64. "
        "Distinct by (method, shapes, parameters)")
ASSUMPTIONS = ["slerp is not judged on nearly opposite tensors, perpendicular_component not on a zero direction (only that it is finite), geometric_sum not at zeros with an exponent of zero"]
BUDGET = {"quick": (100000, 13), "thorough": (10**7, 400)}
METHODS = {}
W, D = "weight", "delta"


def resolve(name):
    return merge_methods.resolve(name)


def method(name, n, spaces, alphas=None):
    def deco(ref):
        METHODS[name] = (n, spaces, alphas, ref)
        return ref
    return deco


ALPHAS = [0.0, 1.0, 0.5, 0.25, 0.9, -0.5, 1.75, 1e-3]


@method("weighted_sum", 2, W, ALPHAS)
def weighted_sum(a, b, alpha):
    return a + alpha * (b - a)


@method("n_average", (1, 5), W)
def n_average(*xs):
    return sum(xs) / len(xs)


@method("slerp", 2, W, ALPHAS)
def slerp(a, b, alpha):
    na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
    norm = na + alpha * (nb - na)
    if na == 0 or nb == 0:
        return a + alpha * (b - a)
    ua, ub = a / na, b / nb
    cos = np.clip((ua * ub).sum(), -1, 1)
    if cos < -1 + 1e-6:
        return None
    if cos > 1 - 1e-10:
        return a + alpha * (b - a)
    # rotate ua towards ub in their plane
    ortho = ub - cos * ua
    ortho /= np.sqrt((ortho * ortho).sum())
    angle = alpha * np.arccos(cos)
    return (np.cos(angle) * ua + np.sin(angle) * ortho) * norm


@method("add_difference", 2, [W, D], ALPHAS)
def add_difference(a, b, alpha):
    return a + alpha * b


@method("subtract", 2, W)
def subtract(a, b):
    return a - b


@method("perpendicular_component", 2, W)
def perpendicular_component(a, b):
    n = (a * a).sum()
    if n == 0:
        return None
    return b - (a * b).sum() / n * a


@method("geometric_sum", 2, W, [0.5, 0.25, 0.9, 0.01])
def geometric_sum(a, b, alpha):
    return np.abs(a) ** (1 - alpha) * np.abs(b) ** alpha * np.cos(np.pi * ((1 - alpha) * (a < 0) + alpha * (b < 0)))


def w_add_difference3(a, b, c, alpha, clamp_to_ab):
    res = a + alpha * (b - c)
    return np.clip(res, np.minimum(a, b), np.maximum(a, b)) if clamp_to_ab else res


def w_add_difference2(a, b, alpha, clamp_to_ab):
    return a + alpha * b


def w_add_perpendicular(a, b, c, alpha):
    n = ((a - c) ** 2).sum()
    if n == 0:
        return None
    return a + alpha * ((b - c) - ((a - c) * (b - c)).sum() / n * (a - c))


def tensors(rng, n, related):
    shape = nm.rand_shape(rng)
    xs = [nm.values(rng, shape, special=rng.choice([0, 0.2, 0.6])) for _ in range(n)]
    if related and n >= 2:
        how = rng.choice(["equal", "parallel", "opposite", "close", "near", "zero"])
        i, j = rng.sample(range(n), 2)
        if how == "equal":
            xs[j] = xs[i].copy()
        elif how == "parallel":
            xs[j] = xs[i] * rng.choice([2.0, 0.25, 3.0])
        elif how == "opposite":
            xs[j] = -xs[i]
        elif how == "close":
            xs[j] = xs[i] + 1e-4 * nm.values(rng, shape)
        elif how == "near":
            xs[j] = (xs[i] + rng.choice([0.003, 0.01, 0.03, 0.1, 0.3]) * nm.values(rng, shape)) * rng.choice([1, 1, 2.0])
        else:
            xs[j] = np.zeros(shape)
    return xs


def judge(ctx, name, build, ref, inputs, params, spaces):
    """params: {key: dict of parameters}"""
    out = nm.run(ctx, build, inputs, spaces)
    for k, xs in inputs.items():
        want = ref(*xs, **params[k])
        got = out[k]
        ctx.note(method=name, key=k, params=params[k], inputs=[x.ravel()[:8].tolist() for x in xs])
        if want is None:
            ctx.count("not judged")
            if name.endswith("perpendicular_component"):
                ctx.check(bool(np.isfinite(got).all()), f"{name}: not finite", inputs=[x.tolist() for x in xs])
            continue
        nm.close(ctx, got, want, f"{name}({params[k]})", tol=1e-7 if name in ("slerp",) else 1e-9, inputs=[x.ravel()[:12].tolist() for x in xs], shape=xs[0].shape)
        ctx.seen("case", (name, xs[0].shape, tuple(sorted(params[k].items())), len(xs)))
        ctx.count(f"{name} keys")


def keys_of(rng):
    return [f"k{i}" for i in range(rng.randint(3, 8))]


def formula(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(METHODS))
    n, spaces, alphas, ref = METHODS[name]
    if isinstance(n, tuple):
        n = rng.randint(*n)
    keys = keys_of(rng)
    inputs = {k: tensors(rng, n, rng.random() < 0.3) for k in keys}
    fn = resolve(name)
    if alphas is None:
        params = {k: {} for k in keys}
        build = lambda nodes: fn(*nodes)
    elif rng.random() < 0.3:
        values = {k: rng.choice(alphas) for k in keys}
        params = {k: {"alpha": v} for k, v in values.items()}
        build = lambda nodes: fn(*nodes, alpha=dict(values))
    else:
        alpha = rng.choice(alphas + [rng.random()])
        # literals of tensor parameters pass through float32
        alpha = float(np.float32(alpha))
        params = {k: {"alpha": alpha} for k in keys}
        if rng.random() < 0.15:
            default = DEFAULTS[name]
            params = {k: {"alpha": default} for k in keys}
            if default not in alphas + [0.5, 1.0]:
                raise Skip
            build = lambda nodes: fn(*nodes)
        else:
            build = lambda nodes: fn(*nodes, alpha=alpha)
    for p in params.values():
        if "alpha" in p:
            p["alpha"] = float(np.float32(p["alpha"]))
    judge(ctx, name, build, ref, inputs, params, spaces)


DEFAULTS = {"weighted_sum": 0.5, "slerp": 0.5, "add_difference": 1.0, "geometric_sum": 0.5}


def elementwise_alpha(ctx):
    """alpha may be a model: one weight per element"""
    rng = ctx.rng
    name = rng.choice(["weighted_sum", "add_difference", "geometric_sum"])
    _, spaces, _, ref = METHODS[name]
    keys = keys_of(rng)
    inputs = {k: tensors(rng, 2, False) for k in keys}
    for k in keys:
        shape = inputs[k][0].shape
        inputs[k].append(np.array([rng.choice([0.25, 0.5, 0.75] if name == "geometric_sum" else [0.0, 1.0, 0.5, -1.0]) for _ in range(int(np.prod(shape)))]).reshape(shape))
    spaces = ([spaces] * 2 if isinstance(spaces, str) else list(spaces)) + ["param"]
    fn = resolve(name)
    judge(ctx, f"elementwise {name}", lambda nodes: fn(*nodes), ref, inputs, {k: {} for k in keys}, spaces)


def wrapped(ctx):
    rng = ctx.rng
    keys = keys_of(rng)
    which = rng.choice(["add_difference3", "add_difference2", "add_perpendicular", "operators"])
    alpha = float(np.float32(rng.choice(ALPHAS)))
    if which == "add_difference3":
        inputs = {k: tensors(rng, 3, rng.random() < 0.3) for k in keys}
        p = {"alpha": alpha, "clamp_to_ab": rng.random() < 0.5}
        judge(ctx, which, lambda nodes: sd_mecha.add_difference(*nodes, **nm.leave_out(rng, p, {"alpha": 1.0, "clamp_to_ab": False}, also=0)), w_add_difference3, inputs, {k: p for k in keys}, W)
    elif which == "add_difference2":
        inputs = {k: tensors(rng, 2, rng.random() < 0.3) for k in keys}
        p = {"alpha": alpha, "clamp_to_ab": False}
        judge(ctx, which, lambda nodes: sd_mecha.add_difference(*nodes, **nm.leave_out(rng, p, {"alpha": 1.0, "clamp_to_ab": False}, also=0)), w_add_difference2, inputs, {k: p for k in keys}, [W, D])
    elif which == "add_perpendicular":
        inputs = {k: tensors(rng, 3, rng.random() < 0.3) for k in keys}
        p = {"alpha": alpha}
        judge(ctx, which, lambda nodes: sd_mecha.add_perpendicular(*nodes, **nm.leave_out(rng, p, {"alpha": 1.0, "clamp_to_ab": False}, also=0)), w_add_perpendicular, inputs, {k: p for k in keys}, W)
    else:
        inputs = {k: tensors(rng, 3, rng.random() < 0.3) for k in keys}
        judge(ctx, which, lambda n: n[0] + (n[1] - n[2]), lambda a, b, c: a + b - c, inputs, {k: {} for k in keys}, W)


def paths(ctx):
    """the operators also take paths of models, on both sides"""
    rng = ctx.rng
    from mon.util import merge, write_safetensors
    keys = keys_of(rng)
    models = [{k: nm.tt(tensors(rng, 1, False)[0]) for k in keys}]
    for _ in range(2):
        models.append({k: nm.tt(nm.values(rng, tuple(v.shape))) for k, v in models[0].items()})
    files = [write_safetensors(ctx.tmpdir() / f"m{i}.safetensors", m) for i, m in enumerate(models)]
    na, nb, nc = (sd_mecha.model(f) for f in files)
    how, build, ref = rng.choice([
        ("path - node", lambda: files[0] - nb, lambda x, y, z: x - y),
        ("node - path", lambda: na - files[1], lambda x, y, z: x - y),
        ("path + delta", lambda: files[0] + (nb - nc), lambda x, y, z: x + (y - z)),
        ("delta + path", lambda: (nb - nc) + files[0], lambda x, y, z: x + (y - z)),
        ("node + delta of a path", lambda: na + (files[1] - nc), lambda x, y, z: x + (y - z)),
        ("path | node", lambda: files[0] | nb, lambda x, y, z: x),
        ("node | path", lambda: na | files[1], lambda x, y, z: x),
        ("path | (path - node + delta)", lambda: files[0] | ((files[1] - nc) + nc), lambda x, y, z: x),
    ])
    out = merge(build(), merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, threads=rng.choice([0, 2]))
    ctx.check(set(out) == set(keys), f"{how}: lost or invented keys", expected=keys, observed=sorted(out))
    for k in keys:
        nm.close(ctx, out[k].numpy(), ref(*(m[k].double().numpy() for m in models)), how, key=k)
    ctx.count("operators on paths")
    ctx.count(how)
    ctx.seen("case", (how, len(keys)))


def exact_ends(ctx):
    """an alpha of 0 or 1 returns a or b bit for bit, even when the other holds nan or lacks the key"""
    rng = ctx.rng
    from mon.util import merge, rand_bits, expect_same
    alpha = rng.choice([0.0, 1.0])
    dtype = rng.choice([torch.float16, torch.float32, torch.bfloat16, torch.float64])
    a, b = ({f"k{i}": rand_bits(rng, nm.rand_shape(rng), dtype) for i in range(4)} for _ in range(2))
    b = {k: rand_bits(rng, tuple(v.shape), dtype) for k, v in a.items()}
    node = sd_mecha.weighted_sum(sd_mecha.model(a), sd_mecha.model(b), alpha=alpha)
    out = merge(node, merge_dtype=dtype, output_dtype=dtype)
    expect_same(ctx, b if alpha else a, out, f"weighted_sum at alpha={alpha}")
    ctx.count("exact ends")


REQUIRED = {"values compared": 30000, "elementwise weighted_sum keys": 20, "add_difference3 keys": 20, "add_perpendicular keys": 20, "exact ends": 20, "operators on paths": 30} | {f"{m} keys": 60 for m in METHODS}
SCENARIOS = [("formula", formula, 6), ("elementwise_alpha", elementwise_alpha, 1), ("wrapped", wrapped, 2), ("exact_ends", exact_ends, 1), ("paths", paths, 1)]
