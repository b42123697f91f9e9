"""Region copies, frequency crossover, rotation and rank truncation compute what they define."""
import math
import numpy as np
import scipy.linalg
import torch
import sd_mecha
from sd_mecha.extensions import merge_methods
from mon import numeric as nm
from mon.core import Skip
from .c20 import keys_of

ID = "C22"
RULE = ("region copies are compared element by element with a circular interval computed independently; crossover with a filter over full Fourier transforms; rotation with the closed form "
        "of the orthogonal Procrustes problem and matrix powers (scipy), with and without a cache shared between alignments; truncated ranks by the rank of the result and its distance to the "
        "input, against numpy's singular values. Distinct by (method, shapes, parameters)")
ASSUMPTIONS = ["rounding ties at the ends of a region and at the cut of a filter are not judged", "rotations whose problem is degenerate or whose power is not unique are not judged",
               "rotations from a cache are stored in half precision (judged at 0.03)", "crossover of scalars is judged for tilts in [0, 1] only"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 400)}
W, D = "weight", "delta"


def gauss(rng, shape):
    return np.random.default_rng(rng.randrange(2**32)).normal(0, 1, shape)


def interval(width, offset, n):
    """boolean circular region over n places, None where a limit falls on a rounding tie"""
    if width < 0:
        offset, width = offset + width, -width
    width = min(width, 1.0)
    offset %= 1.0
    start, end = offset * n, (offset + width) * n
    for x in (start, end):
        if abs(x % 1 - 0.5) < 1e-6:
            return None
    i = np.arange(2 * n)
    region = (i >= round(start)) & (i < round(end))
    return region[:n] | region[n:]


def region_case(ctx):
    rng = ctx.rng
    top_k = rng.random() < 0.5
    with_c = rng.random() < 0.3
    inputs = {}
    for k in keys_of(rng):
        shape = nm.rand_shape(rng)
        inputs[k] = [gauss(rng, shape) for _ in range(2 + with_c)]
        if rng.random() < 0.15:
            inputs[k][1] = inputs[k][0].copy()
    width = rng.choice([0.0, 1.0, 0.5, 0.25, 0.75, 1.5, -0.25, -1.0, 2.0, rng.uniform(-1.2, 1.2)])
    offset = rng.choice([0.0, 0.5, 0.25, 0.9, 1.0, 1.75, -0.25, -0.6, -1.0, -2.3, rng.uniform(-3, 3)])
    p = {"width": width, "offset": offset, "top_k": top_k}
    if rng.random() < 0.2:
        method = merge_methods.resolve("top_k_tensor_sum" if top_k else "tensor_sum")
        given = nm.leave_out(rng, {"width": width, "offset": offset}, {"width": 1.0 if top_k else 0.5, "offset": 0.0}, also=0)
        build = (lambda m: method(*m, **given)) if not with_c else None
    else:
        build = None
    options = nm.leave_out(rng, p, {"width": 1.0, "offset": 0.0, "top_k": False}, also=0)
    ctx.count("defaults", len(p) - len(options))
    build = build or (lambda m: rng.choice([sd_mecha.copy_region, sd_mecha.tensor_sum])(*m, **options))
    out = nm.run(ctx, build, inputs, W)
    for k, xs in inputs.items():
        ctx.note(method="copy_region", key=k, params=p, inputs=[x.ravel()[:8].tolist() for x in xs], shape=xs[0].shape)
        base = xs[2] if with_c else 0.0
        a, b = xs[0] - base, xs[1] - base
        if not top_k:
            if a.ndim == 0:
                if width < 0:
                    continue
                want = b if width > 0.5 else a
            else:
                region = interval(width, offset, a.shape[0])
                if region is None:
                    continue
                want = np.where(region.reshape(-1, *[1] * (a.ndim - 1)), b, a)
        else:
            region = interval(width, offset, a.size)
            if region is None:
                continue
            ordered = np.sort(a.ravel())
            # place of each element of b in its order, and size rank of each ordered value of a
            place = np.empty(a.size, dtype=int)
            place[np.argsort(b.ravel(), kind="stable")] = np.arange(a.size)
            size_rank = np.empty(a.size, dtype=int)
            size_rank[np.argsort(np.abs(ordered), kind="stable")] = np.arange(a.size)
            if len(np.unique(np.abs(ordered))) < a.size:
                continue
            want = np.where(region[size_rank][place], ordered[place], a.ravel()).reshape(a.shape)
        nm.close(ctx, out[k], want + base, f"copy_region({p})", inputs=[x.ravel()[:12].tolist() for x in xs], shape=a.shape)
        ctx.seen("case", ("region", a.shape, width, offset, top_k, with_c))
        ctx.count("top k regions" if top_k else "regions")


def frequencies(shape):
    """distance of every frequency from zero, 1 at the highest"""
    total = np.zeros(shape)
    for d, s in enumerate(shape):
        f = np.abs(np.fft.fftfreq(s)) * s
        f = f / max(f.max(), 1)
        total = total + (f ** 2).reshape([-1 if i == d else 1 for i in range(len(shape))])
    return np.sqrt(total / len(shape))


def cut(r, alpha, tilt):
    """filter at the distances r; turning the cut by 4 quarters is no turn. None where a step falls on a frequency"""
    turn = tilt % 4
    half = min(abs(turn - 2), 1)
    if min(turn, 4 - turn) < 1e-9 or half < 1e-9:
        step = alpha if half < 1e-9 else 1 - alpha
        if (np.abs(r - step) < 1e-5).any():
            return None
        return (r < step if half < 1e-9 else r > step).astype(float)
    cot = math.cos(math.pi * turn / 2) / math.sin(math.pi * turn / 2)
    # lines through (1 - alpha, alpha) in the first and last quarters, through (alpha, alpha) in the others
    slope, through = (cot, 1 - alpha) if turn <= 1 else (cot, alpha) if turn <= 2 else (-cot, alpha) if turn <= 3 else (-cot, 1 - alpha)
    return np.clip(alpha + (r - through) * slope, 0, 1)


def crossover(ctx):
    rng = ctx.rng
    inputs = {k: [gauss(rng, s := nm.rand_shape(rng, ("scalar", "vector", "matrix", "wide", "tall", "conv", "conv1", "cube"))), gauss(rng, s)] for k in keys_of(rng)}
    for xs in inputs.values():
        if rng.random() < 0.1:
            xs[1] = xs[0].copy()
    alpha = rng.choice([0.0, 1.0, 0.3, 0.45, 0.7, rng.random()])
    tilt = rng.choice([0.0, 0.0, 1.0, 0.5, 0.25, rng.random(), rng.uniform(1, 4), 2.0, 4.0, 3.0, -1.0, -2.0, -0.5, 8.0, rng.uniform(-9, 9), rng.uniform(-4, 0), -1e-16, 2 - 1e-15, 2 + 4e-15])
    if rng.random() < 0.1:
        alpha = 0.5
    options = nm.leave_out(rng, {"alpha": alpha, "tilt": tilt}, {"alpha": 0.5, "tilt": 0.0}, also=0)
    out = nm.run(ctx, lambda m: sd_mecha.crossover(*m, **options), inputs, W)
    for k, (a, b) in inputs.items():
        ctx.note(method="crossover", key=k, alpha=alpha, tilt=tilt, shape=a.shape, inputs=[a.ravel()[:8].tolist(), b.ravel()[:8].tolist()])
        what, got = f"crossover(alpha={alpha}, tilt={tilt}) of shape {a.shape}", out[k]
        details = {"inputs": [a.ravel()[:12].tolist(), b.ravel()[:12].tolist()]}
        ctx.check(got.shape == a.shape, f"{what}: the shape of the result is {got.shape}")
        ctx.seen("case", ("crossover", a.shape, alpha, tilt))
        ctx.count("crossovers")
        if alpha in (0.0, 1.0):
            nm.close(ctx, got, b if alpha else a, what, **details)
        elif tilt == 1.0:
            nm.close(ctx, got, a + alpha * (b - a), what, **details)
        elif (a == b).all():
            nm.close(ctx, got, a, what, tol=1e-5, **details)
        elif a.ndim == 0:
            if 0 <= tilt <= 1:
                nm.close(ctx, got, a + tilt * (b - a), what, **details)
        else:
            r = frequencies(a.shape)
            fa, fb, fx = np.fft.fftn(a), np.fft.fftn(b), np.fft.fftn(got)
            f = cut(r, alpha, tilt)
            if f is None:
                continue
            ctx.count("turned filters", int(not 0 <= tilt <= 1))
            nm.close(ctx, got, np.fft.ifftn(fa + f * (fb - fa)).real, what, tol=1e-4, **details)
            ctx.count("filters judged")


def power(r, p):
    """principal real power of a rotation"""
    if p == round(p):
        return np.linalg.matrix_power(r, round(p)) if p >= 0 else np.linalg.matrix_power(r.T, round(-p))
    log = scipy.linalg.logm(r)
    return scipy.linalg.expm(p * log).real


def procrustes(a, b, alignment, alpha):
    """None where the problem has no unique answer"""
    conv = a.ndim == 4 and a.shape[2] * a.shape[3] != 1
    rows = a.shape[0] * a.shape[1] if conv else a.shape[0]
    x, y = a.reshape(rows, -1), b.reshape(rows, -1)
    cx, cy = x.mean(0), y.mean(0)
    x, y = x - cx, y - cy
    n, d = x.shape
    if n < 2:
        return None
    u, s, vt = np.linalg.svd(x.T @ y)
    rank = min(n - 1, d)
    if s[rank - 1] < 1e-2 * s[0]:
        return None
    fractional = alignment != round(alignment)
    if alignment not in (0, 1) and rank < d:
        return None
    r = u @ vt
    if fractional and np.linalg.det(r) < 0:
        if d > 1 and s[-2] - s[-1] < 1e-2 * s[0]:
            return None
        u = u.copy()
        u[:, -1] *= -1
        r = u @ vt
    if fractional:
        angles = np.angle(np.linalg.eigvals(r))
        if (np.abs(angles) > math.pi - 0.1).any():
            return None
    if alignment == 0:
        if alpha and rank < d:
            pass
        t = np.eye(d)
    else:
        t = power(r, alignment)
    moved = (1 - alpha) * x + (alpha * y @ r.T if alpha else 0)
    return (moved @ t + (1 - alignment) * cx + alignment * cy).reshape(a.shape)


def rotate(ctx):
    rng = ctx.rng
    kinds = ("scalar", "vector", "tall", "matrix", "wide", "conv", "conv1", "wider", "big", "big conv")
    inputs = {}
    with_c = rng.random() < 0.25
    for k in keys_of(rng):
        kind = rng.choice(kinds)
        shape = {
            "wider": (rng.randint(2, 4), rng.randint(16, 30)),
            "big": (n := rng.randint(8, 40), n + rng.randint(8, 40)),  # more columns than rows
            "big conv": (rng.randint(2, 5), rng.randint(2, 5), 7, 7),
        }.get(kind) or nm.rand_shape(rng, (kind,))
        inputs[k] = [gauss(rng, shape) + rng.choice([0, 2]) for _ in range(2 + with_c)]
        if rng.random() < 0.1:
            inputs[k][1] = inputs[k][0].copy()
    alignments = [rng.choice([0.0, 1.0, 1.0, 0.5, 0.25, 2.0, -1.0, 0.75]) for _ in range(rng.choice([1, 1, 3]))]
    cache = {} if len(alignments) > 1 or rng.random() < 0.3 else None
    for alignment in alignments:
        alpha = rng.choice([0.0, 0.0, 0.5, 0.25, 1.0, 0.75, 0.9, 0.99, rng.random()])
        options = nm.leave_out(rng, {"alignment": alignment, "alpha": alpha}, {"alignment": 1.0, "alpha": 0.0}, also=0)
        if cache is None and not with_c and rng.random() < 0.3:
            build = lambda m: merge_methods.resolve("rotate")(*m, **options)
        else:
            build = lambda m: sd_mecha.rotate(*m, cache=cache, **options)
        out = nm.run(ctx, build, inputs, W)
        for k, xs in inputs.items():
            base = xs[2] if with_c else 0.0
            a, b = xs[0] - base, xs[1] - base
            got = out[k]
            what = f"rotate(alignment={alignment}, alpha={alpha}{', shared cache' if cache is not None else ''}) of shape {a.shape}"
            ctx.note(method="rotate", key=k, alignment=alignment, alpha=alpha, shape=a.shape, history=alignments)
            ctx.check(got.shape == a.shape, f"{what}: the shape of the result is {got.shape}")
            if alignment == 0 and alpha == 0:
                want = a
            elif alignment == 1 and alpha == 1:
                want = b
            elif a.ndim <= 1 or np.allclose(a, b):
                want = a + alpha * (b - a)
            else:
                want = procrustes(a, b, alignment, alpha)
            if want is None:
                ctx.check(bool(np.isfinite(got).all()), f"{what}: not finite")
                ctx.count("degenerate rotations")
                continue
            nm.close(ctx, got, want + base, what, tol=1e-6 if cache is None else 3e-2, inputs=[x.ravel()[:12].tolist() for x in xs], history=alignments)
            ctx.seen("case", ("rotate", a.shape, alignment, alpha, cache is not None))
            ctx.count("rotations" if cache is None else "cached rotations")
    if cache is not None and len(alignments) > 1:
        ctx.count("histories")


def rank(ctx):
    rng = ctx.rng
    inputs = {}
    for k in keys_of(rng):
        shape = nm.rand_shape(rng, ("scalar", "vector", "tall", "matrix", "wide", "conv", "conv1", "cube"))
        x = gauss(rng, shape)
        if x.ndim >= 2:
            m = x.reshape(shape[0], -1)
            u, s, vt = np.linalg.svd(m, full_matrices=False)
            how = rng.choice(["decay", "low", "full"])
            if how == "decay":
                s = 100.0 ** -np.minimum(np.arange(len(s)), 4) * s[0]
            elif how == "low":
                s = s * (np.arange(len(s)) < rng.randint(1, len(s)))
            x = ((u * s) @ vt).reshape(shape)
        inputs[k] = [x]
    ratio = rng.choice([1.0, 0.5, 0.25, 0.0, 0.75, rng.random()])
    fn = merge_methods.resolve("truncate_rank")
    options = nm.leave_out(rng, {"rank_ratio": ratio}, {"rank_ratio": 0.5}, also=0)
    out = nm.run(ctx, lambda m: fn(*m, **options), inputs, D)
    for k, (x,) in inputs.items():
        got = out[k]
        what = f"truncate_rank(rank_ratio={ratio}) of shape {x.shape}"
        ctx.note(method="truncate_rank", key=k, ratio=ratio, shape=x.shape)
        ctx.check(got.shape == x.shape, f"{what}: the shape of the result is {got.shape}")
        ctx.seen("case", ("rank", x.shape, ratio))
        ctx.count("ranks")
        if x.ndim < 2:
            nm.close(ctx, got, x, what)
            continue
        m, g = x.reshape(x.shape[0], -1), got.reshape(x.shape[0], -1)
        full = min(m.shape)
        if abs(full * ratio % 1 - 0.5) < 1e-9:
            targets = [math.floor(full * ratio), math.ceil(full * ratio)]
        else:
            targets = [round(full * ratio)]
        targets = [min(max(t, 1), full) for t in targets]
        s = np.linalg.svd(m, compute_uv=False)
        sg = np.linalg.svd(g, compute_uv=False)
        t = max(targets)
        ctx.check(bool((sg[t:] < 1e-8 * max(s[0], 1)).all()), f"{what}: the rank of the result exceeds {t}", singular_values=sg.tolist())
        t = min(targets)
        best = math.sqrt((s[t:] ** 2).sum())
        error = math.sqrt(((m - g) ** 2).sum())
        # a projection never adds energy; close to the best approximation when the spectrum decays
        ctx.check((sg ** 2).sum() <= (s ** 2).sum() + 1e-8, f"{what}: larger than the input")
        ctx.check(error <= (1.5 * best if t < full and s[t] < 0.02 * s[t - 1] else math.sqrt((s ** 2).sum()) + 1e-8) + 1e-8, f"{what}: error {error}, the best approximation has {best}",
                  singular_values=s.tolist())
        if error <= 1e-8:
            ctx.count("exact ranks")


REQUIRED = {"defaults": 50, "regions": 100, "top k regions": 100, "filters judged": 100, "turned filters": 100, "rotations": 100, "cached rotations": 60, "histories": 20, "ranks": 200, "exact ranks": 50, "values compared": 20000}
SCENARIOS = [("region", region_case, 2), ("crossover", crossover, 2), ("rotate", rotate, 2), ("rank", rank, 1)]
