"""Runs one method through a real merge over keys with random values, and compares each key with a numpy reference."""
import numpy as np
import torch
import sd_mecha
from .util import merge, captured_logs, write_safetensors

SPECIAL = [0.0, 0.0, 1.0, -1.0, 0.5, -0.5, 2.0]


def rand_shape(rng, kinds=("scalar", "vector", "matrix", "wide", "tall", "conv1", "conv", "single")):
    kind = rng.choice(kinds)
    r = rng.randint
    return {
        "scalar": (), "vector": (r(1, 9),), "matrix": (r(2, 6), r(2, 6)), "wide": (r(1, 4), r(5, 20)), "tall": (r(5, 20), r(1, 4)),
        "conv1": (r(1, 5), r(1, 5), 1, 1), "conv": (r(1, 4), r(1, 4), r(2, 3), r(2, 3)), "single": (1,) * r(1, 3), "cube": (r(2, 4), r(2, 4), r(2, 4)),
    }[kind]


def values(rng, shape, special=0.15, scale=1.0):
    n = int(np.prod(shape))
    v = [rng.choice(SPECIAL) if rng.random() < special else rng.gauss(0, 1) * scale for _ in range(n)]
    return np.array(v, dtype=np.float64).reshape(shape)


def leave_out(rng, options, defaults, also=0.25):
    """options to give: some of those that have their default value are left out; sometimes turns options into their defaults (in place)"""
    for name, value in defaults.items():
        if name in options and rng.random() < also:
            options[name] = value
    return {k: v for k, v in options.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and rng.random() < 0.6)}


def tt(x):
    return torch.tensor(x, dtype=torch.float64)


def run(ctx, build, inputs, spaces, per_key=None, dtype=torch.float64, **kw):
    """inputs: {key: [arrays]}; build(nodes, params) -> recipe; per_key: {name: {key: literal}}. Returns {key: float64 array}"""
    rng = ctx.rng
    n = len(next(iter(inputs.values())))
    models = []
    for i in range(n):
        d = {k: tt(v[i]).to(dtype) for k, v in inputs.items()}
        if rng.random() < 0.3:
            rng.shuffle(keys := list(d))
            d = {k: d[k] for k in keys}
        space = spaces[i] if isinstance(spaces, (list, tuple)) else spaces
        if rng.random() < 0.2:
            d = write_safetensors(ctx.tmpdir() / "m.safetensors", d)
        models.append(sd_mecha.model(d, merge_space=space))
    recipe = build(models)
    with captured_logs():
        out = merge(recipe, merge_dtype=kw.pop("merge_dtype", torch.float64), output_dtype=kw.pop("output_dtype", torch.float64),
                    strict_weight_space=False, threads=rng.choice([0, 0, 2]), **kw)
    ctx.check(set(out) == set(inputs), "a method over structural models lost or invented keys", expected=sorted(inputs), observed=sorted(out))
    return {k: v.numpy() for k, v in out.items()}


def close(ctx, got, want, what, tol=1e-9, **details):
    want = np.asarray(want, dtype=np.float64)
    ctx.check(got.shape == want.shape, f"{what}: the shape of the result is {got.shape}, not {want.shape}", **details)
    scale = max(1.0, float(np.abs(want[np.isfinite(want)]).max()) if np.isfinite(want).any() else 1.0)
    ok = (np.abs(got - want) <= tol * scale) | (got == want) | (np.isnan(got) & np.isnan(want))
    ctx.check(bool(ok.all()), f"{what}: wrong values", expected=np.ravel(want)[:12].tolist(), observed=np.ravel(got)[:12].tolist(),
              wrong=int((~ok).sum()), of=int(ok.size), **details)
    ctx.count("values compared", int(ok.size))
