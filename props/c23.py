"""Masks, selections, cosine and quotient methods, clamp and copy_distribution compute their formulas."""
import numpy as np
import torch
import sd_mecha
from sd_mecha.extensions import merge_methods
from mon import numeric as nm
from .c20 import tensors, keys_of

ID = "C23"
RULE = ("each method is merged over models with random tensors (all ranks, zeros, constant, equal, parallel and opposite tensors) with random parameters, "
        "and every element is compared with a numpy reference written from the method's definition (relative tolerance 1e-9 in float64); selections are not judged within 1e-9 of a tie. "
        "copy_distribution is judged by its mean and deviation at six standard errors. Distinct by (method, shapes, parameters)")
ASSUMPTIONS = ["select_max_white_delta is not judged where the whitening is degenerate (constant tensors other than zero, equal or opposite ones), except that it selects a or b"]
BUDGET = {"quick": (100000, 13), "thorough": (10**7, 400)}
ALPHAS = [0.0, 1.0, 0.5, 0.25, 0.9, 1.75, -0.5]
METHODS = {}
W, D = "weight", "delta"
PICK = "pick"


def method(name, n, spaces, alphas=ALPHAS, **extra):
    def deco(ref):
        METHODS[name] = (n, spaces, alphas, extra, ref)
        return ref
    return deco


def div0(x, y):
    """x / y, 0 where it is undefined"""
    with np.errstate(all="ignore"):
        return np.where(y == 0, 0.0, x / np.where(y == 0, 1.0, y))


@method("train_difference_mask", 3, W)
def train_difference_mask(a, b, c, alpha):
    return alpha * 1.8 * div0(np.abs(a - b), np.abs(a - b) + np.abs(c - b))


@method("add_opposite_mask", 3, W)
def add_opposite_mask(a, b, c, alpha):
    return alpha * 2 * div0(np.abs(a - b), np.abs(a - b) + np.abs((a - c) + (b - c)))


@method("add_strict_opposite_mask", 3, W)
def add_strict_opposite_mask(a, b, c, alpha):
    x, y = a - c, b - c
    return alpha * 2 * np.where(x * y < 0, div0(np.minimum(np.abs(x), np.abs(y)), np.maximum(np.abs(x), np.abs(y))), 0.0)


def zscore(x, ddof):
    if x.size <= ddof:
        return np.zeros_like(x)
    return div0(x - x.mean(), np.full_like(x, x.std(ddof=ddof)))


@method("select_max_delta", 2, D)
def select_max_delta(a, b, alpha):
    if np.ptp(a) == 0 or np.ptp(b) == 0:
        # rounding decides whether a constant tensor has a deviation, unless it is zero
        if (np.ptp(a) == 0 and a.ravel()[0] != 0) or (np.ptp(b) == 0 and b.ravel()[0] != 0):
            if a.size > 1:
                return PICK, np.full(a.shape, np.nan), a, b
    x, y = (1 - alpha) * np.abs(zscore(a, 1)), alpha * np.abs(zscore(b, 1))
    return PICK, np.where((x == 0) & (y == 0), 1.0, np.where(np.abs(x - y) < 1e-9, np.nan, np.sign(x - y))), a, b


@method("select_max_white_delta", 2, D)
def select_max_white_delta(a, b, alpha):
    d = np.stack((zscore(a, 0).ravel(), zscore(b, 0).ravel()))
    cov = d @ d.T / d.shape[1]
    rho = cov[0, 1]
    def degenerate(t):
        return np.ptp(t) < 1e-9 and (t != 0).any()

    # a delta that is zero everywhere is never selected by its size, nor does it disturb the other
    if a.size < 2 or degenerate(a) or degenerate(b) or not (a.any() or b.any()) or abs(rho) > 1 - 1e-6:
        return PICK, np.full(a.shape, np.nan), a, b
    # the inverse square root of [[1, r], [r, 1]]
    p, m = 1 / np.sqrt(1 + rho), 1 / np.sqrt(1 - rho)
    x = (p + m) / 2 * d[0] + (p - m) / 2 * d[1]
    y = (p - m) / 2 * d[0] + (p + m) / 2 * d[1]
    x, y = (1 - alpha) * np.abs(x).reshape(a.shape), alpha * np.abs(y).reshape(a.shape)
    return PICK, np.where(np.abs(x - y) < 1e-7, np.nan, np.sign(x - y)), a, b


@method("multiply_quotient", 3, W)
def multiply_quotient(a, b, c, alpha):
    with np.errstate(all="ignore"):
        la, lb = np.log(np.abs(a)) - np.log(np.abs(c)), np.log(np.abs(b)) - np.log(np.abs(c))
        strength = np.where(la * lb < 0, np.minimum(np.abs(la), np.abs(lb)) / np.maximum(np.abs(la), np.abs(lb)), 0.0)
        exponent = alpha * strength
        res = a * np.abs(b / c) ** exponent * np.cos(np.pi * exponent * (b * c < 0))
    return np.where((a == 0) | (b == 0) | (c == 0), a, res)


def cosine(x, y):
    n = np.sqrt((x * x).sum(0)) * np.sqrt((y * y).sum(0))
    return div0((x * y).sum(0), n)


def follow(a, b, alpha, similarity):
    k = 1 - np.clip(similarity - alpha, 0, 1)
    return a + k * (b - a)


def columns(x):
    return x.reshape(1) if x.ndim == 0 else x


@method("add_cosine_a", 2, W)
def add_cosine_a(a, b, alpha):
    return follow(a, b, alpha, cosine(columns(a), columns(b))).reshape(a.shape)


@method("add_cosine_b", 2, W)
def add_cosine_b(a, b, alpha):
    return follow(a, b, alpha, (cosine(columns(a), columns(b)) + cosine(a.ravel(), b.ravel())) / 2).reshape(a.shape)


@method("clamp", (2, 6), W, [0.0, 1.0, 0.5, 0.3], param="stiffness")
def clamp(a, *bounds, stiffness):
    # rounding of the average decides on which side of it a bound is: nan where that matters
    s = np.stack(bounds)
    x, y = (clamp_around(a, s, stiffness, e) for e in (-1e-12, 1e-12))
    # the average of 2 or 4 small integers is exact
    exact = (s == np.round(s)).all(0) if len(s) in (2, 4) else np.zeros(a.shape, bool)
    return np.where((np.abs(x - y) > 1e-12) & ~exact, np.nan, clamp_around(a, s, stiffness, 0.0))


def clamp_around(a, s, stiffness, epsilon):
    low, high = s.min(0), s.max(0)
    if stiffness:
        mean = s.mean(0) + epsilon
        inner_high = np.where(s >= mean, s, np.inf).min(0)
        inner_low = np.where(s <= mean, s, -np.inf).max(0)
        inner_high = np.where(np.isfinite(inner_high), inner_high, high)
        inner_low = np.where(np.isfinite(inner_low), inner_low, low)
        high = high + stiffness * (inner_high - high)
        low = low + stiffness * (inner_low - low)
    return np.minimum(np.maximum(a, low), high)


# of the other methods: 1
DEFAULTS = {"select_max_delta": 0.5, "select_max_white_delta": 0.5, "clamp": 0.0}


def formula(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(METHODS))
    n, spaces, alphas, extra, ref = METHODS[name]
    param = extra.get("param", "alpha")
    if isinstance(n, tuple):
        n = rng.randint(*n)
    keys = keys_of(rng)
    inputs = {k: tensors(rng, n, rng.random() < 0.4) for k in keys}
    if name == "clamp" and rng.random() < 0.4:
        # bounds that equal each other, or their average
        inputs = {k: [xs[0], *(np.round(2 * x) for x in xs[1:])] for k, xs in inputs.items()}
    fn = merge_methods.resolve(name)
    if rng.random() < 0.3:
        values = {k: rng.choice(alphas) for k in keys}
    else:
        values = dict.fromkeys(keys, float(np.float32(rng.choice(alphas + [rng.random()]))))
    values = {k: float(np.float32(v)) for k, v in values.items()}
    given = dict(values) if rng.random() < 0.3 or len(set(values.values())) > 1 else next(iter(values.values()))
    options = nm.leave_out(rng, {param: given}, {param: DEFAULTS.get(name, 1.0)}, also=0)
    ctx.count("defaults", not options)
    out = nm.run(ctx, lambda nodes: fn(*nodes, **options), inputs, spaces)
    for k, xs in inputs.items():
        ctx.note(method=name, key=k, param=values[k], inputs=[x.ravel()[:8].tolist() for x in xs])
        details = {"inputs": [x.ravel()[:12].tolist() for x in xs], "shape": xs[0].shape}
        what = f"{name}({param}={values[k]})"
        want = ref(*xs, **{param: values[k]})
        if isinstance(want, tuple) and want[0] is PICK:
            _, side, a, b = want
            got = out[k]
            ctx.check(got.shape == a.shape, f"{what}: the shape of the result is {got.shape}, not {a.shape}", **details)
            ok = np.where(np.isnan(side), (got == a) | (got == b), np.where(side > 0, got == a, got == b))
            ctx.check(bool(ok.all()), f"{what}: selected the wrong elements", expected=side.ravel()[:12].tolist(), observed=got.ravel()[:12].tolist(), **details)
            ctx.count("values compared", int(ok.size))
            ctx.count("selections judged", int((~np.isnan(side)).sum()))
        else:
            ambiguous = np.isnan(want) if out[k].shape == want.shape else False
            nm.close(ctx, out[k], np.where(ambiguous, out[k], want) if name == "clamp" else want, what, **details)
            ctx.count("ambiguous", int(np.sum(ambiguous)))
        ctx.seen("case", (name, xs[0].shape, values[k], len(xs)))
        ctx.count(f"{name} keys")


def distribution(ctx):
    rng = ctx.rng
    n = 4096
    inputs = {}
    for i in range(3):
        x = np.random.default_rng(rng.randrange(2**32)).normal(rng.uniform(-3, 3), rng.choice([0.01, 1, 5]), n).reshape(rng.choice([(n,), (64, 64), (16, 16, 4, 4)]))
        inputs[f"k{i}"] = [x]
    inputs["constant"] = [np.full((8, 8), 0.5)]
    single = float(rng.choice([0.0, 1.5, -3.0]))
    inputs["single"] = [np.full(rng.choice([(), (1,), (1, 1)]), single)]
    # tensors of a few elements, judged together
    few, repeat = rng.choice([2, 2, 3]), 400
    small = np.arange(few) * rng.choice([1.0, 8.0]) - 0.5
    inputs |= {f"small{i}": [small] for i in range(repeat)}
    fn = merge_methods.resolve("copy_distribution")
    out = nm.run(ctx, lambda nodes: fn(*nodes), inputs, W)
    for k, (x,) in inputs.items():
        y = out[k]
        ctx.check(y.shape == x.shape, f"copy_distribution: shape {y.shape}, not {x.shape}")
        if k.startswith("small"):
            continue
        if k in ("constant", "single"):
            ctx.check(bool((y == x).all()), "copy_distribution: a constant tensor must stay constant")
            continue
        ctx.check(abs(y.mean() - x.mean()) < 6 * x.std() / np.sqrt(n), "copy_distribution: the mean is not that of the input", expected=x.mean(), observed=y.mean())
        ctx.check(abs(y.std() - x.std()) < 6 * x.std() / np.sqrt(2 * n), "copy_distribution: the deviation is not that of the input", expected=x.std(), observed=y.std())
        correlation = np.corrcoef(x.ravel(), y.ravel())[0, 1]
        ctx.check(abs(correlation) < 0.2, "copy_distribution: the result follows the input", correlation=correlation)
        ctx.count("distributions")
    y = np.concatenate([out[f"small{i}"] for i in range(repeat)])
    ctx.check(abs(y.mean() - small.mean()) < 6 * small.std() / np.sqrt(y.size), "copy_distribution: the mean of small tensors is not that of the input", expected=small.mean(), observed=y.mean())
    ctx.check(abs(y.std() - small.std()) < 6 * small.std() / np.sqrt(2 * y.size), "copy_distribution: the deviation of small tensors is not that of the input", expected=small.std(), observed=y.std())
    ctx.count("small tensors", repeat)


REQUIRED = {"defaults": 20, "values compared": 30000, "selections judged": 2000, "distributions": 30, "small tensors": 4000} | {f"{m} keys": 60 for m in METHODS}
SCENARIOS = [("formula", formula, 12), ("distribution", distribution, 1)]
