"""Every built-in merge method with random parameters: name -> (params, recipe_fn(*nodes), number of models, merge spaces)."""
import sd_mecha
from sd_mecha.extensions import merge_methods

W, D = "weight", "delta"


def alpha(rng):
    return rng.choice([0.0, 1.0, 0.5, 0.3, -0.25, 1.5])


def m(n, space, fn, **params):
    def make(rng):
        p = {k: v(rng) if callable(v) else v for k, v in params.items()}
        count = n(rng) if callable(n) else n
        spaces = space if isinstance(space, list) else [space] * count
        return p, (lambda *nodes: fn(nodes, **p)), count, spaces
    return make


def resolve(name):
    return merge_methods.resolve(name)


def some(rng):
    return rng.randint(2, 4)



def call(name):
    return lambda nodes, **p: resolve(name)(*nodes, **p)


def wrapped(fn):
    return lambda nodes, **p: fn(*nodes, **p)


frac = lambda rng: rng.choice([0.0, 0.25, 0.5, 0.9, 1.0])
offset = lambda rng: rng.choice([0.0, 0.25, 0.6, -0.3, 1.2])
boolean = lambda rng: rng.random() < 0.5
seed = lambda rng: rng.randint(0, 1000)

ALL = [
    ("weighted_sum", m(2, W, call("weighted_sum"), alpha=alpha)),
    ("n_average", m(some, W, call("n_average"))),
    ("slerp", m(2, W, call("slerp"), alpha=alpha)),
    ("add_difference", m(2, [W, D], call("add_difference"), alpha=alpha)),
    ("add_difference3", m(3, W, wrapped(sd_mecha.add_difference), alpha=alpha, clamp_to_ab=boolean)),
    ("subtract", m(2, W, call("subtract"))),
    ("perpendicular_component", m(2, W, call("perpendicular_component"))),
    ("add_perpendicular", m(3, W, wrapped(sd_mecha.add_perpendicular), alpha=alpha)),
    ("geometric_sum", m(2, W, call("geometric_sum"), alpha=alpha)),
    ("add_cosine_a", m(2, W, call("add_cosine_a"), alpha=alpha)),
    ("add_cosine_b", m(2, W, call("add_cosine_b"), alpha=alpha)),
    ("tensor_sum", m(2, W, call("tensor_sum"), width=frac, offset=offset)),
    ("top_k_tensor_sum", m(2, W, call("top_k_tensor_sum"), width=frac, offset=offset)),
    ("copy_region", m(3, W, wrapped(sd_mecha.copy_region), width=frac, offset=offset, top_k=boolean)),
    ("train_difference_mask", m(3, W, call("train_difference_mask"), alpha=alpha)),
    ("add_opposite_mask", m(3, W, call("add_opposite_mask"), alpha=alpha)),
    ("add_strict_opposite_mask", m(3, W, call("add_strict_opposite_mask"), alpha=alpha)),
    ("select_max_delta", m(2, D, call("select_max_delta"), alpha=alpha)),
    ("multiply_quotient", m(3, W, call("multiply_quotient"), alpha=alpha)),
    ("crossover", m(2, W, call("crossover"), alpha=frac, tilt=frac)),
    ("rotate", m(2, W, wrapped(sd_mecha.rotate), alignment=lambda rng: rng.choice([0.0, 1.0, 2.0]), alpha=frac)),
    ("clamp", m(some, W, call("clamp"), stiffness=frac)),
    ("copy_distribution", m(1, W, call("copy_distribution"))),
    ("ties_sum", m(some, D, call("ties_sum"), k=frac, vote_sgn=boolean)),
    ("ties_sum_extended", m(some, D, call("ties_sum_extended"), k=frac, vote_sgn=boolean, apply_median=boolean)),
    ("add_difference_ties", m(some, W, wrapped(sd_mecha.add_difference_ties), k=frac, alpha=alpha)),
    ("dropout", m(some, W, wrapped(sd_mecha.dropout), probability=frac, alpha=alpha, seed=seed)),
    ("ties_sum_with_dropout", m(some, D, call("ties_sum_with_dropout"), probability=frac, k=frac, seed=seed)),
    ("ties_with_dare", m(some, W, wrapped(sd_mecha.ties_with_dare), probability=frac, seed=seed, alpha=alpha)),
    ("geometric_median", m(some, W, call("geometric_median"), maxiter=lambda rng: rng.choice([0, 1, 20]))),
    ("truncate_rank", m(1, D, call("truncate_rank"), rank_ratio=frac)),
    ("fallback", m(2, W, call("fallback"))),
    ("exchange_ema", m(1, W, call("exchange_ema"))),
    ("cast", m(1, W, call("cast"), dtype=lambda rng: rng.choice([None, "float64", "float32"]))),
]
