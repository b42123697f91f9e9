"""TIES, DARE, dropout, model stock and geometric median compute what their papers define."""
import itertools
import numpy as np
import torch
import sd_mecha
from sd_mecha.extensions import merge_methods
from mon import numeric as nm
from mon.util import merge, expect_same
from .c20 import keys_of
from .c20 import tensors as related_tensors

ID = "C21"
RULE = ("deltas with random shapes, zeros and equal magnitudes are merged with every method of the family and random parameters; TIES and model stock are compared elementwise with a numpy "
        "reference (trim, elect, merge), the geometric median by its sum of distances, dropout by finding, for every element, the subset of deltas whose rescaled mean it is: the frequencies "
        "of the subsets are compared with the probability at six standard errors; the same seed must give the same result. Distinct by (method, parameters, shapes)")
ASSUMPTIONS = ["model stock needs two deltas or more, and is not judged where its ratio is singular",
               "dropout with overlap: only that every element is the mean of a subset, or dropped with the given probability"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 400)}
W, D = "weight", "delta"
KS = [1.0, 0.5, 0.25, 0.75, 0.125, 0.0, 0.2, 0.9]
METHODS = {}


def resolve(name):
    return merge_methods.resolve(name)


def trimmed(xs, k):
    res = []
    for x in xs:
        n = max(int((1 - k) * x.size), 1)
        limit = np.sort(np.abs(x).ravel())[n - 1]
        res.append(np.where(np.abs(x) >= limit, x, 0.0))
    return np.stack(res)


def elected(xs, k, vote_sgn):
    """(trimmed deltas of the elected sign, how many there are; 0 and 0 where none)"""
    t = trimmed(xs, k)
    total = (t if vote_sgn else np.sign(t)).sum(0)
    total = np.where(np.abs(total) < 1e-12, 0.0, total) if vote_sgn else total
    agree = (np.sign(t) == np.sign(total))
    return np.where(agree, t, 0.0), agree.sum(0)


def ambiguous_vote(xs, k, vote_sgn):
    """the sum of values is a rounding error away from zero"""
    t = trimmed(xs, k)
    return vote_sgn & (np.abs(t.sum(0)) < 1e-12) & (np.abs(t).sum(0) > 0)


def mean0(t, count):
    return np.where(count == 0, 0.0, t.sum(0) / np.maximum(count, 1))


def ties(*xs, k=1.0, vote_sgn=False):
    return np.where(ambiguous_vote(xs, k, vote_sgn), np.nan, mean0(*elected(xs, k, vote_sgn)))


def stock_t(xs, cos_eps=1e-6):
    """one ratio per row (vectors along the last dimension); nan where it is singular"""
    cols = [x.reshape(1) if x.ndim == 0 else x for x in xs]
    cs = []
    for x, y in zip(cols[:-1], cols[1:]):
        nx, ny = np.sqrt((x * x).sum(-1)), np.sqrt((y * y).sum(-1))
        small = (nx < 1e-3) | (ny < 1e-3)
        cs.append(np.where(small, np.where((nx == 0) | (ny == 0), 0.0, np.nan), (x * y).sum(-1) / np.where(small, 1, nx * ny)))
    cos = np.mean(cs, axis=0)
    n = len(xs)
    denominator = 1 + (n - 1) * cos
    t = np.where(np.abs(denominator) < 1e-2, np.nan, n * cos / np.where(denominator == 0, 1, denominator))
    return t[..., None] if xs[0].ndim else t.reshape(())


def stock(*xs):
    return stock_t(xs) * (sum(xs) / len(xs))


def ties_stock(*xs, k, vote_sgn):
    t, count = elected(xs, k, vote_sgn)
    return np.where(ambiguous_vote(xs, k, vote_sgn), np.nan, mean0(t, count)) * stock_t(list(t))


def distances(p, xs):
    return sum(np.sqrt(((p - x) ** 2).sum()) for x in xs)


def weiszfeld(xs, n=3000):
    p = sum(xs) / len(xs)
    best = distances(p, xs)
    for _ in range(n):
        w = [1 / max(np.sqrt(((p - x) ** 2).sum()), 1e-9) for x in xs]
        q = sum(wi * x for wi, x in zip(w, xs)) / sum(w)
        best = min(best, distances(q, xs))
        if np.abs(q - p).max() < 1e-12:
            break
        p = q
    return min([best] + [distances(x, xs) for x in xs])


def deltas(rng, n, min_dim=0):
    while True:
        xs = related_tensors(rng, n, rng.random() < 0.2)
        if xs[0].ndim >= min_dim:
            break
    if rng.random() < 0.3:
        xs = [np.round(x * 2) / 2 for x in xs]  # many equal magnitudes
    return xs


DEFAULTS = {"k": 1.0, "vote_sgn": False, "apply_stock": False, "alpha": 1.0, "rescale": True, "no_rescale": False, "seed": None}


def exact(ctx):
    """methods without randomness, elementwise"""
    rng = ctx.rng
    name = rng.choice(["ties_sum", "ties_sum_extended", "ties_stock", "add_difference_ties", "add_difference_ties_extended", "model_stock", "n_model_stock", "ties_dropout0", "dare0", "dropout0"])
    stocks = "stock" in name
    n = rng.randint(2 if stocks else 1, 5)
    k, vote = rng.choice(KS + [rng.random()]), rng.random() < 0.4
    alpha = float(np.float32(rng.choice([1.0, 0.5, -0.5, 0.3])))
    spaces = [D] * n
    with_base = name in ("add_difference_ties", "add_difference_ties_extended", "n_model_stock", "dare0", "dropout0")
    keys = keys_of(rng)
    inputs = {}
    for key in keys:
        xs = deltas(rng, n + with_base)
        while any(abs((1 - k) * x.size - round((1 - k) * x.size)) < 1e-9 for x in xs) and k not in KS[:6]:
            k = rng.random()
        inputs[key] = xs
    if with_base:
        # models are given as weights, or as deltas which are used as they are
        spaces = [W] + [W if name == "dropout0" or rng.random() < 0.7 else D for _ in range(n)]

    def tasks(xs):
        return [x - xs[0] if s == W else x for x, s in zip(xs[1:], spaces[1:])] if with_base else xs

    p = {}
    if name == "ties_sum":
        p = {"k": k, "vote_sgn": vote}
        build, ref = (lambda m: resolve(name)(*m, **p)), lambda xs: ties(*xs, k=k, vote_sgn=vote)
    elif name in ("ties_sum_extended", "ties_stock"):
        p = {"k": k, "vote_sgn": vote, "apply_stock": stocks}
        build = lambda m: sd_mecha.ties_sum_extended(*m, **p)
        ref = lambda xs: ties_stock(*xs, k=k, vote_sgn=vote) if stocks else ties(*xs, k=k, vote_sgn=vote)
    elif name == "add_difference_ties":
        p = {"k": k, "alpha": alpha}
        build, ref = (lambda m: sd_mecha.add_difference_ties(*m, **p)), lambda xs: xs[0] + alpha * ties(*tasks(xs), k=k)
    elif name == "add_difference_ties_extended":
        stock_too = n > 1 and rng.random() < 0.3
        p = {"k": k, "alpha": alpha, "vote_sgn": vote, "apply_stock": stock_too}
        build = lambda m: sd_mecha.add_difference_ties_extended(*m, **p)
        ref = lambda xs: xs[0] + alpha * (ties_stock if stock_too else ties)(*tasks(xs), k=k, vote_sgn=vote)
    elif name == "model_stock":
        build, ref = (lambda m: sd_mecha.model_stock(*m)), lambda xs: stock(*xs)
    elif name == "n_model_stock":
        build, ref = (lambda m: sd_mecha.n_model_stock(*m)), lambda xs: xs[0] + stock(*tasks(xs))
    elif name == "ties_dropout0":
        dead = rng.random() < 0.3
        p = {"k": k, "vote_sgn": vote, "probability": 1.0 if dead else 0.0, "no_rescale": rng.random() < 0.5, "seed": rng.choice([None, 3])}
        build, ref = (lambda m: resolve("ties_sum_with_dropout")(*m, **p)), lambda xs: np.zeros_like(xs[0]) if dead else ties(*xs, k=k, vote_sgn=vote)
    elif name == "dare0":
        dead = rng.random() < 0.3
        p = {"k": k, "vote_sgn": vote, "alpha": alpha, "probability": 1.0 if dead else 0.0, "rescale": rng.random() < 0.5, "seed": rng.choice([None, 3])}
        build, ref = (lambda m: sd_mecha.ties_with_dare(*m, **p)), lambda xs: xs[0] + (0 if dead else alpha * ties(*tasks(xs), k=k, vote_sgn=vote))
    else:
        dead = rng.random() < 0.3
        p = {"alpha": alpha, "probability": 1.0 if dead else 0.0, "seed": rng.choice([None, 3])}
        build, ref = (lambda m: sd_mecha.dropout(*m, **p)), lambda xs: xs[0] + (0 if dead else alpha * sum(tasks(xs)) / n)
    # the options that have their defaults may be left out, the reference keeps them
    everything, p = p, nm.leave_out(rng, p, DEFAULTS | ({"k": 0.2} if name in ("ties_sum_extended", "ties_stock", "add_difference_ties_extended", "ties_dropout0") else {"alpha": 0.5} if name == "dropout0" else {}), also=0)
    ctx.count("defaults", len(everything) - len(p))
    out = nm.run(ctx, build, inputs, spaces)
    p = everything
    for key, xs in inputs.items():
        ctx.note(method=name, key=key, params=p, spaces=spaces, inputs=[x.ravel()[:8].tolist() for x in xs])
        want = ref(xs)
        got = out[key]
        details = {"inputs": [x.ravel()[:12].tolist() for x in xs], "shape": xs[0].shape}
        ctx.check(got.shape == want.shape, f"{name}({p}): the shape of the result is {got.shape}, not {want.shape}", **details)
        nm.close(ctx, got, np.where(np.isnan(want), got, want), f"{name}({p})", tol=1e-7 if stocks else 1e-9, **details)
        ctx.count("singular or ambiguous", int(np.isnan(want).sum()))
        ctx.seen("case", (name, xs[0].shape, n, tuple(map(str, p.items()))))
        ctx.count(f"{name} keys")


def median(ctx):
    rng = ctx.rng
    n = rng.randint(1, 5)
    inputs = {key: deltas(rng, n) for key in keys_of(rng)}
    ties_too = rng.random() < 0.3
    k = rng.choice([1.0, 0.5])
    if rng.random() < 0.15:
        out = nm.run(ctx, lambda m: sd_mecha.geometric_median(*m, maxiter=0), inputs, W)
        for key, xs in inputs.items():
            nm.close(ctx, out[key], sum(xs) / n, "geometric_median without iterations is the average")
        return
    if ties_too:
        build = lambda m: sd_mecha.ties_sum_extended(*m, k=k, apply_median=True, maxiter=1000)
    else:
        build = lambda m: sd_mecha.geometric_median(*m, maxiter=1000)
    out = nm.run(ctx, build, inputs, D if ties_too else W)
    for key, xs in inputs.items():
        points = list(elected(xs, k, False)[0]) if ties_too else xs
        got, best = out[key], weiszfeld(points, 1000)
        ctx.note(method="geometric_median", key=key, inputs=[x.ravel()[:8].tolist() for x in xs], objective=distances(got, points), best=best)
        ctx.check(got.shape == xs[0].shape, "geometric_median: wrong shape")
        ctx.check(distances(got, points) <= best * (1 + 1e-3) + 1e-5, f"geometric_median{' of ties' if ties_too else ''}: a point with a smaller sum of distances exists",
                  observed=distances(got, points), best=best, inputs=[x.ravel()[:12].tolist() for x in points])
        # inside the box of the points
        s = np.stack(points)
        ctx.check(bool(((got >= s.min(0) - 1e-6) & (got <= s.max(0) + 1e-6)).all()), "geometric_median: outside of the points")
        ctx.seen("case", ("median", xs[0].shape, n, ties_too))
        ctx.count("medians")


def subset_of(values, got, scale):
    """for every element the bitmask of the deltas whose mean it is; -1 where none fits"""
    n = len(values)
    res = np.full(got.shape, -1)
    for mask in range(2 ** n):
        members = [values[i] for i in range(n) if mask >> i & 1]
        want = sum(members) / len(members) * scale if members else np.zeros_like(got)
        res = np.where(np.abs(got - want) < 1e-9 * (1 + np.abs(want)), mask, res)
    return res


def within(ctx, observed, p, n, what, **details):
    limit = 6 * np.sqrt(max(p * (1 - p), 1e-9) / n) + 2 / n
    ctx.check(abs(observed - p) <= limit, f"{what}: {observed:.4f}, expected {p:.4f} within {limit:.4f}", **details)


def random_deltas(rng, n, shape):
    return [np.random.default_rng(rng.randrange(2**32)).normal(0, 1, shape) + 0.01 for _ in range(n)]


def drop(ctx):
    rng = ctx.rng
    n = rng.randint(1, 3)
    p = rng.choice([0.9, 0.5, 0.1, 0.75])
    overlap = rng.choice([1.0, 1.0, 1.0, 3.0, 0.0, 2.0, 0.5])
    seed = rng.choice([None, 0, rng.randint(0, 10**6), rng.randint(0, 2**62)])
    which = rng.choice(["dropout", "wrapper", "dare", "dare_wrapper"])
    alpha = 1.0
    rescale = rng.choice([1.0, 0.0, 0.5])
    shape = rng.choice([(40, 50), (2000,), (20, 25, 2, 2)])
    inputs = {key: random_deltas(rng, n + ("wrapper" in which), shape) for key in ("k0", "k1")}
    params = {"probability": p, "seed": seed}
    if which == "dare" and rng.random() < 0.6:  # no conflicts of signs
        inputs = {key: [np.abs(x) for x in xs] for key, xs in inputs.items()}
    if which == "dare_wrapper" and rng.random() < 0.6:
        inputs = {key: [xs[0]] + [xs[0] + np.abs(x) for x in xs[1:]] for key, xs in inputs.items()}
    if which == "dropout":
        params |= {"overlap": overlap, "rescale": rescale}
        if overlap < 1:
            params["overlap_emphasis"] = rng.choice([0.0, 0.5, 1.0])
        build, spaces = (lambda m: resolve("dropout")(*m, **params)), D
    elif which == "wrapper":
        params |= {"overlap": overlap}
        alpha, rescale = rng.choice([1.0, 0.5]), 1.0
        build, spaces = (lambda m: sd_mecha.dropout(*m, alpha=alpha, **params)), W
    elif which == "dare_wrapper":
        no_rescale = rng.random() < 0.5
        alpha, rescale, overlap = rng.choice([1.0, 0.5]), 0.0 if no_rescale else 1.0, 1.0
        build, spaces = (lambda m: sd_mecha.ties_with_dare(*m, k=1.0, rescale=not no_rescale, alpha=alpha, **params)), W
    else:
        no_rescale = rng.random() < 0.5
        rescale, overlap = 0.0 if no_rescale else 1.0, 1.0
        build, spaces = (lambda m: resolve("ties_sum_with_dropout")(*m, k=1.0, no_rescale=no_rescale, **params)), D
    given = params
    params = nm.leave_out(rng, params, {"probability": 0.9, "seed": None, "overlap": 1.0, "rescale": 1.0}, also=0)
    ctx.note(which=which, params=given, n=n, alpha=alpha)
    what = f"{which}({params}, {n} deltas)"
    out = nm.run(ctx, build, inputs, spaces)
    scale = alpha / (1 - p) ** rescale
    for key, xs in inputs.items():
        got = out[key]
        if "wrapper" in which:
            got = got - xs[0]
            xs = [x - xs[0] for x in xs[1:]]
        if "dare" in which and n > 1 and min(x.min() for x in xs) < 0:
            # the sign election makes other elements vanish too
            options = [ties(*(x if m >> i & 1 else np.zeros_like(x) for i, x in enumerate(xs))) * scale for m in range(2 ** n)]
            fits = np.stack([np.abs(got - o) < 1e-9 for o in options]).any(0)
            ctx.check(bool(fits.all()), f"{what}: elements that no choice of dropped deltas gives", wrong=int((~fits).sum()))
            ctx.count("dropout elements", got.size)
            continue
        masks = subset_of(xs, got, scale)
        ctx.check(bool((masks >= 0).all()), f"{what}: elements that are not the rescaled mean of a subset of the deltas", wrong=int((masks < 0).sum()),
                  observed=got.ravel()[:6].tolist(), deltas=[x.ravel()[:6].tolist() for x in xs])
        if overlap % 2 == 1:
            for i in range(n):
                within(ctx, (masks >> i & 1).mean(), 1 - p, masks.size, f"{what}: rate at which delta {i} is kept")
            for i, j in itertools.combinations(range(n), 2):
                within(ctx, ((masks >> i & 1) & (masks >> j & 1)).mean(), (1 - p) ** 2, masks.size, f"{what}: rate at which deltas {i} and {j} are both kept")
        else:
            within(ctx, (masks == 0).mean(), p, masks.size, f"{what}: rate of elements without any delta")
            kept = [(masks >> i & 1).mean() for i in range(n)]
            for i in range(1, n):
                # the deltas are treated alike
                within(ctx, kept[0] - kept[i] + 0.5, 0.5, masks.size, f"{what}: deltas 0 and {i} are kept at different rates", rates=kept)
            ctx.count("symmetric")
            if overlap == 0.0 and not params.get("overlap_emphasis"):
                ctx.check(set(np.unique(masks)) <= {0} | {2 ** i for i in range(n)}, f"{what}: deltas overlap")
        ctx.count("dropout elements", got.size)
        ctx.seen("case", (which, n, p, overlap, rescale, shape))
    again = nm.run(ctx, build, inputs, spaces)
    equal = all((out[k] == again[k]).all() for k in out)
    if seed is not None:
        ctx.check(equal, f"{what}: the same seed gave another result")
        other = dict(params, seed=seed + 1)
        fn = {"dropout": resolve("dropout"), "wrapper": sd_mecha.dropout, "dare": resolve("ties_sum_with_dropout"), "dare_wrapper": sd_mecha.ties_with_dare}[which]
        extra = {"alpha": alpha} if which == "wrapper" else {"alpha": alpha, "k": 1.0, "rescale": not no_rescale} if which == "dare_wrapper" else {"k": 1.0, "no_rescale": no_rescale} if which == "dare" else {}
        different = nm.run(ctx, lambda m: fn(*m, **extra, **other), inputs, spaces)
        ctx.check(not all((out[k] == different[k]).all() for k in out), f"{what}: another seed gave the same result")
        ctx.count("seeds")


REQUIRED = {"defaults": 100, "values compared": 20000, "medians": 200, "dropout elements": 100000, "seeds": 30} | {
    f"{m} keys": 40 for m in ("ties_sum", "ties_sum_extended", "ties_stock", "add_difference_ties", "add_difference_ties_extended", "model_stock", "n_model_stock", "ties_dropout0", "dare0", "dropout0")}
SCENARIOS = [("exact", exact, 6), ("median", median, 2), ("drop", drop, 1)]
