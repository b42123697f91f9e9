"""Every merged value is what the recipe says, key by key."""
import pathlib
import torch
import sd_mecha
from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNode
from mon import lab, dag
from mon.util import merge, QuietBar, read_safetensors, write_safetensors, describe

ID = "C01"
RULE = ("random recipe graphs (depth 1-4, shared sub-recipes, operators, wrappers, custom methods, scalar/dict/tensor parameters, "
        "in-memory and on-disk models with missing keys and aliases) merged with random threads, buffers, dtypes and outputs; "
        "each output key is compared with an independent reference evaluation in exact arithmetic. "
        "A case is distinct by the text of its recipe, and non-trivial when it merges at least one key through at least one method")
ASSUMPTIONS = [
    "values are small dyadic numbers, so that every correct evaluation order gives the same floating point result",
    "the reference evaluator of mon/dag.py is right about the documented meaning of each operator",
]
BUDGET = {"quick": (100000, 16), "thorough": (10**7, 900)}
REQUIRED = {"values compared": 2000, "skipped keys confirmed": 20, "parts found": 500, "no parts": 200, "reversed operators": 50}

lab.register(lab.A, lab.BIG)


def one(ctx, spec, depth, **gen_kw):
    rng = ctx.rng
    tmp = ctx.tmpdir()
    gen = dag.Gen(rng, tmp, spec, p_missing=rng.choice([0, 0, 0.15, 0.4]), **gen_kw)
    ref, node = gen.gen("weight", depth)
    kw = {
        "merge_dtype": rng.choice([torch.float64, torch.float64, torch.float32]) if depth <= 3 else torch.float64,
        "output_dtype": rng.choice([torch.float64, torch.float64, torch.float32, None, ...]),
        "threads": rng.choice([0, 0, 1, 2, 3, 5, 8, None]),
        "total_buffer_size": rng.choice([0, 1, 64, 4096, 2**20, ...]),
        "omit_ema": rng.choice([True, False, False]),
    }
    if rng.random() < 0.3:
        fref, fnode = gen.gen("weight", 1)
        kw["fallback_model"] = fnode
        ref = gen._fallback(ref, fref)
    out_kind = rng.choice(["none", "dict", "file"])
    bars = []

    def bar(*args, **kwargs):
        bars.append(QuietBar(*args, **kwargs))
        return bars[-1]
    ctx.note(recipe=ref.text[:1500], options={k: str(v) for k, v in kw.items()}, output=out_kind)
    if out_kind == "none":
        out = merge(node, tqdm=bar, **kw)
    elif out_kind == "dict":
        given = {}
        out = merge(node, tqdm=bar, output=given, **kw)
        ctx.check(out is given, "merge() did not return the dictionary it was given")
    else:
        path = tmp / "out.safetensors"
        res = merge(node, tqdm=bar, output=rng.choice([str, lambda p: p])(path), **kw)
        ctx.check(res is None, "merge() to a file returned something")
        out, _ = read_safetensors(path)

    expected = gen.expected(ref)
    if kw["omit_ema"] and "ema" in spec.components:
        for k in spec.components["ema"]:
            expected.pop(k, None)
    missing = sorted(set(expected) - set(out))
    extra = sorted(set(out) - set(expected))
    ctx.check(not missing, "keys with a value are missing from the output", keys=missing[:5], recipe=ref.text[:3000])
    ctx.check(not extra, "the output has keys the recipe gives no value to", keys=extra[:5], recipe=ref.text[:3000])
    out_dtype = kw["output_dtype"]
    out_dtype = torch.float16 if out_dtype is ... else kw["merge_dtype"] if out_dtype is None else out_dtype
    for k, want in expected.items():
        got = out[k]
        if out_dtype is not None and kw["output_dtype"] is not None:
            ctx.check(got.dtype == out_dtype, f"key {k!r} has dtype {got.dtype}, not {out_dtype}")
        want = want.to(got.dtype)
        if not dag.numerically_equal(want, got):
            ctx.fail(f"wrong value for key {k!r}", expected=describe(want), actual=describe(got), recipe=ref.text[:3000])
        ctx.count("values compared")
    ctx.count("skipped keys confirmed", len(spec.keys) - len(expected))
    if gen.ops_used and expected:
        ctx.seen("case", ref.text)
    for o in gen.ops_used:
        ctx.seen("operators", o)
    ctx.seen("options", sorted((k, str(v)) for k, v in kw.items() if k != "fallback_model"))
    ctx.sample(recipe=ref.text[:400], options={k: str(v) for k, v in kw.items()}, keys=len(expected))


def shallow(ctx):
    one(ctx, lab.A, ctx.rng.randint(1, 2))


def deep(ctx):
    one(ctx, lab.A, ctx.rng.randint(3, 4))


def big(ctx):
    one(ctx, lab.BIG, 2, n_models=2)


def is_same_part(a, b):
    if isinstance(a, LiteralRecipeNode) and isinstance(b, LiteralRecipeNode):
        if isinstance(a.value, (dict, torch.Tensor)) or isinstance(b.value, (dict, torch.Tensor)):
            return a.value is b.value
        return a.value == b.value
    if isinstance(a, ModelRecipeNode) and isinstance(b, ModelRecipeNode):
        return a.path == b.path
    return a is b


def parts_of(node):
    yield node
    children = []
    if isinstance(node, MergeRecipeNode):
        children = [*node.args, *node.kwargs.values()]
    elif isinstance(node, LiteralRecipeNode) and isinstance(node.value, dict):
        children = [v for v in node.value.values() if isinstance(v, RecipeNode)]
    for child in children:
        yield from parts_of(child)


def parts(ctx):
    """a recipe contains exactly its parts"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A)
    nodes = [gen.gen("weight", rng.randint(0, 2))[1] for _ in range(3)]
    if rng.random() < 0.6:
        keys = rng.sample(sorted(lab.A.keys), 2)
        nodes.append(nodes[0] | sd_mecha.literal({k: n for k, n in zip(keys, nodes[1:])}))
    found = [list(parts_of(n)) for n in nodes]
    for node, own in zip(nodes, found):
        for other in found:
            for item in other if len(other) < 20 else rng.sample(other, 20):
                want = any(is_same_part(p, item) for p in own)
                ctx.check((item in node) == want, "a recipe does not contain a part of it" if want else "a recipe contains what is no part of it",
                          item=str(type(item)), recipe=sd_mecha.serialize(node)[:2000] if not any(isinstance(p, LiteralRecipeNode) and isinstance(p.value, (dict, torch.Tensor)) for p in own) else None)
                ctx.count("parts found" if want else "no parts")


def reversed_operators(ctx):
    """operators whose left side is no recipe node: a file, or a dictionary of nodes or values"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = lab.A

    def state():
        stored, canon = lab.rand_state(rng, spec, p_missing=rng.choice([0, 0.3]), p_decoy=0)
        return canon
    left, right, third = state(), state(), state()
    path = pathlib.Path(write_safetensors(tmp / "left.safetensors", left))
    kind = rng.choice(["file |", "file -", "file +", "nodes |", "nodes -", "values |"])
    other = sd_mecha.model(dict(right), config=spec.identifier, merge_space="delta" if kind == "file +" else "weight")
    d64 = lambda d: {k: v.double() for k, v in d.items()}
    l, r, t = d64(left), d64(right), d64(third)
    if kind.startswith("nodes"):
        base = sd_mecha.model(dict(left), config=spec.identifier)
        keys = rng.sample(sorted(spec.keys), rng.randint(1, len(spec.keys)))
        l = {k: l[k] for k in keys if k in l}
        own = {k: base for k in keys}
    if kind == "file |":
        node, want = path | other, r | l
    elif kind == "file -":
        node, want = path - other, {k: l[k] - r[k] for k in l if k in r}
    elif kind == "file +":
        node, want = path + other, {k: l[k] + r[k] for k in l if k in r}
    elif kind == "nodes |":
        node, want = own | other, r | l
    elif kind == "nodes -":
        node, want = own - other, {k: l[k] - r[k] for k in l if k in r}
    else:
        numbers = {k: rng.choice(dag.ALPHAS) for k in rng.sample(sorted(spec.keys), 3)}
        default = rng.choice(dag.ALPHAS)
        alpha = numbers | sd_mecha.literal(default, config=rng.choice([None, spec.identifier]))
        node = sd_mecha.add_difference(other, sd_mecha.model(dict(third), config=spec.identifier, merge_space="delta"), alpha=alpha)
        want = {k: r[k] + t[k] * numbers.get(k, default) for k in r if k in t}
    ctx.note(kind=kind, left=sorted(left), right=sorted(right))
    out = merge(node, merge_dtype=torch.float64, output_dtype=torch.float64, omit_ema=False, strict_weight_space=False, threads=rng.choice([0, 2]))
    ctx.check(set(out) == set(want), f"wrong keys of '{kind} node'", expected=sorted(want), actual=sorted(out))
    for k, v in want.items():
        if not dag.numerically_equal(v, out[k]):
            ctx.fail(f"wrong value of '{kind} node' for key {k!r}", expected=describe(v), actual=describe(out[k]))
        ctx.count("values compared")
    ctx.count("reversed operators")
    ctx.seen("case", (kind, tuple(left), tuple(right)))


SCENARIOS = [("reversed_operators", reversed_operators, 1), ("parts", parts, 1), ("shallow", shallow, 5), ("deep", deep, 3), ("big", big, 1)]
