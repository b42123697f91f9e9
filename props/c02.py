"""The output has exactly the keys that the config and the recipe define."""
import contextlib
from collections import OrderedDict, UserDict
import torch
import sd_mecha
from mon import lab
from mon.util import merge, read_safetensors, write_safetensors, rand_tensor, same, describe, captured_logs

ID = "C02"
RULE = ("random config (components, aliases, optional keys, ema) x random models (missing keys, aliased names, extra keys) x "
        "fallback_model / omit_extra_keys / omit_ema / check_mandatory_keys / structural models; the key set of the output and the "
        "provenance of every value (each source tensor carries a unique number) are compared with the documented rule. "
        "A case is distinct by (options, per-source missing/extra/alias pattern)")
ASSUMPTIONS = ["with omit_extra_keys=False only the presence and the value of extra keys is judged, not their dtype"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 600)}
REQUIRED = {"key sets compared": 300, "mandatory rejections": 5, "extra keys carried over": 20, "structural merges": 20, "mappings filled": 50}


def tagged(tag, i, shape, dtype):
    return torch.full(shape, float(tag * 64 + i), dtype=dtype)


SPECS = [
    lab.make_spec("vmonc2a-one", "ca"),
    lab.make_spec("vmonc2b-one", "cb", ema=False),
    lab.make_spec("vmonc2c-one", "cc", aliases=False, optional=False),
]
lab.register(*SPECS)


def source(ctx, spec, tag, p_missing, p_extra):
    rng = ctx.rng
    stored, canon, extra = {}, {}, {}
    for i, k in enumerate(spec.keys):
        if rng.random() < p_missing:
            continue
        t = tagged(tag, i, tuple(spec.keys[k]["shape"]), torch.float32)
        name = rng.choice(spec.names(k)) if rng.random() < 0.5 else k
        stored[name] = canon[k] = t
    for i in range(4):
        if rng.random() < p_extra:
            k = f"extra.{i}"
            stored[k] = extra[k] = tagged(tag, 40 + i, (2,), torch.float32)
    if not stored:
        k = next(iter(spec.keys))
        stored[k] = canon[k] = tagged(tag, 0, tuple(spec.keys[k]["shape"]), torch.float32)
    items = list(stored.items())
    rng.shuffle(items)
    return dict(items), canon, extra


def as_input(rng, stored, tmp, config, merge_space="weight", name=None):
    """a file, a model in memory or a dictionary"""
    if rng.random() < 0.2:
        return sd_mecha.literal(dict(stored), config=config, merge_space=merge_space)
    return lab.as_model(rng, stored, tmp, config, merge_space, name=name)


def run(ctx, recipe, kw, tmp):
    kind = ctx.rng.choice(["none", "dict", "file"])
    if kind == "file":
        path = tmp / "out.safetensors"
        merge(recipe, output=path, **kw)
        return read_safetensors(path)[0]
    if kind == "none":
        return merge(recipe, **kw)
    # the mapping that was given is the one that gets the keys, in addition to what it holds
    mine = {} if ctx.rng.random() < 0.5 else {"there before": torch.ones(1)}
    mapping = ctx.rng.choice([dict, OrderedDict, UserDict])(mine)
    ret = merge(recipe, output=mapping, **kw)
    ctx.check(ret is mapping, "the mapping that was given for the output is not the one that is returned", given=type(mapping).__name__, items=len(mine))
    for k in mine:
        ctx.check(mapping.pop(k, None) is mine[k], "an unrelated key of the mapping that was given for the output is lost")
    ctx.count("mappings filled")
    return dict(mapping)


def options(rng):
    return {
        "threads": rng.choice([0, 1, 2, 4]), "total_buffer_size": rng.choice([0, 100, 2**20]),
        "output_dtype": torch.float32, "merge_dtype": torch.float64,
    }


def compare(ctx, expected, out, **details):
    missing, extra = sorted(set(expected) - set(out)), sorted(set(out) - set(expected))
    ctx.check(not missing, "keys that have a value are missing from the output", keys=missing[:6], **details)
    ctx.check(not extra, "the output has keys it should not have", keys=extra[:6], **details)
    for k, v in expected.items():
        ctx.check(torch.equal(out[k].double(), v.double()), f"key {k!r} does not come from the expected source",
                  expected=describe(v), actual=describe(out[k]), **details)
    ctx.count("key sets compared")


def keys_case(ctx):
    """chain of models, first one that has the key wins"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice(SPECS)
    n = rng.randint(1, 3)
    p_extra = rng.choice([0, 0, 0.5])
    sources = [source(ctx, spec, i + 1, rng.choice([0, 0.2, 0.5, 0.9]), p_extra) for i in range(n)]
    nodes = [as_input(rng, s[0], tmp, spec.identifier, name=f"s{i}") for i, s in enumerate(sources)]
    kw = options(rng)
    use_fallback = n > 1 and rng.random() < 0.5
    if use_fallback:
        rest = nodes[1]
        for x in nodes[2:]:
            rest = rest | x
        recipe = nodes[0]
        kw["fallback_model"] = rest
    else:
        recipe = nodes[0]
        for x in nodes[1:]:
            recipe = recipe | x
    omit_extra = rng.choice([True, True, False])
    omit_ema = rng.choice([True, False, ...])
    if omit_extra and rng.random() < 0.5:
        pass
    else:
        kw["omit_extra_keys"] = omit_extra
    if omit_ema is not ...:
        kw["omit_ema"] = omit_ema
    ema_omitted = omit_extra if omit_ema is ... else omit_ema

    expected = {}
    for _, canon, _ in reversed(sources):
        expected.update(canon)
    if "ema" in spec.components and ema_omitted:
        for k in spec.components["ema"]:
            expected.pop(k, None)
    if not omit_extra:
        for _, _, extra in reversed(sources):
            expected.update(extra)
            ctx.count("extra keys carried over", len(extra))
    detail = {"options": {k: str(v) for k, v in kw.items() if k != "fallback_model"}, "sources": [sorted(s[0]) for s in sources], "config": spec.identifier}
    ctx.note(**detail)
    with captured_logs() as logs:
        out = run(ctx, recipe, kw, tmp)
    compare(ctx, expected, out, **detail)
    if omit_extra:
        for _, _, extra in sources:
            for k in extra:
                ctx.check(any(k in r.getMessage() for r in logs), f"extra key {k!r} was dropped without any warning", **detail)
    ctx.seen("case", (spec.identifier, str(detail["options"]), use_fallback, [sorted(s[0]) for s in sources]))
    ctx.sample(**detail, output=sorted(out))


def extra_merged(ctx):
    """extra keys that every needed input has are merged like the others, extra keys of deltas are not weights"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice(SPECS)
    full = [source(ctx, spec, i + 1, 0, 0.6) for i in range(3)]
    spaces = ["weight", "weight", rng.choice(["weight", "delta"])]
    a, b, c = [as_input(rng, s[0], tmp, spec.identifier, sp, name=f"e{i}") for i, (s, sp) in enumerate(zip(full, spaces))]
    (_, ca, ea), (_, cb, eb), (_, cc, ec) = full
    base = sd_mecha.weighted_sum(a, b, 0.25)
    mixed = lambda k: {**ca, **ea}[k].double() * 0.75 + {**cb, **eb}[k].double() * 0.25
    if spaces[2] == "delta":
        recipe = sd_mecha.add_difference(base, c, alpha=0.5)
        value = lambda k: mixed(k) + {**cc, **ec}[k].double() * 0.5
        forwarded = [ea, eb]
    else:
        recipe = sd_mecha.n_average(base, c)
        value = lambda k: (mixed(k) + {**cc, **ec}[k].double()) / 2
        forwarded = [ea, eb, ec]
    expected = {k: value(k).float() for k in spec.keys}
    for k in {k for e in forwarded for k in e}:
        if k in ea and k in eb and k in ec:
            expected[k] = value(k).float()
        else:
            expected[k] = next(e[k] for e in forwarded if k in e)
        ctx.count("extra keys carried over")
    detail = {"spaces": spaces, "extras": [sorted(e) for e in (ea, eb, ec)], "config": spec.identifier}
    out = run(ctx, recipe, options(rng) | {"omit_extra_keys": False}, tmp)
    compare(ctx, expected, out, **detail)
    ctx.seen("case", ("extra", str(detail)))


def extra_per_key(ctx):
    """the inputs of a dictionary of recipes have extra keys like any other"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice(SPECS)
    full = [source(ctx, spec, i + 1, 0, 0.5) for i in range(3)]
    a, b, c = [as_input(rng, s[0], tmp, spec.identifier, name=f"p{i}") for i, s in enumerate(full)]
    (_, ca, ea), (_, cb, eb), (_, cc, ec) = full
    b_keys, c_keys = rng.sample(list(spec.keys), 2), rng.sample(list(spec.keys), 2)
    given = {k: c for k in c_keys} | {k: b for k in b_keys}
    expected = {k: (cb if k in b_keys else cc if k in c_keys else ca)[k] for k in spec.keys}
    order = list({id(v): v for v in given.values()}.values())
    inside = {**eb} if order == [b] else {**ec, **eb} if order[0] is b else {**eb, **ec}
    node = sd_mecha.literal(given, config=spec.identifier, merge_space="weight")
    recipe = node | a
    kw = options(rng)
    if rng.random() < .5:
        kw["fallback_model"], recipe = a, node
    expected |= {**inside, **ea}
    detail = {"extras": [sorted(e) for e in (ea, eb, ec)], "config": spec.identifier, "given": [b_keys, c_keys]}
    out = run(ctx, recipe, kw | {"omit_extra_keys": False}, tmp)
    compare(ctx, expected, out, **detail)
    ctx.count("extra keys carried over", len(inside | ea))
    ctx.seen("case", ("per key", str(detail)))


def mandatory_case(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = rng.choice(SPECS)
    mandatory = [k for k, v in spec.keys.items() if not v.get("optional")]
    stored, canon, _ = source(ctx, spec, 1, rng.choice([0, 0, 0.3]), 0)
    if rng.random() < 0.6:  # complete the mandatory keys, then maybe remove one
        for i, k in enumerate(mandatory):
            if k not in canon:
                stored[rng.choice(spec.names(k))] = canon[k] = tagged(1, i, tuple(spec.keys[k]["shape"]), torch.float32)
        if rng.random() < 0.4:
            k = rng.choice(mandatory)
            canon.pop(k)
            for name in spec.names(k):
                stored.pop(name, None)
    missing = [k for k in mandatory if k not in canon]
    node = as_input(rng, stored, tmp, spec.identifier)
    other = None
    if rng.random() < 0.5:
        full = {k: tagged(2, i, tuple(v["shape"]), torch.float32) for i, (k, v) in enumerate(spec.keys.items())}
        other = lab.as_model(rng, full, tmp, spec.identifier, name="full")
    recipe = node if other is None else sd_mecha.weighted_sum(other, node, 1.0)
    detail = {"missing": missing, "stored": sorted(stored)}
    try:
        out = merge(recipe, check_mandatory_keys=True, **options(rng))
        raised = None
    except RuntimeError as e:
        raised = e
    ctx.check((raised is not None) == bool(missing),
              "check_mandatory_keys did not reject a model without its mandatory keys" if missing else f"check_mandatory_keys rejected a complete model: {raised}", **detail)
    if missing:
        for k in missing:
            ctx.check(k in str(raised), f"the error does not name the missing key {k!r}: {raised}", **detail)
        ctx.count("mandatory rejections")
    ctx.seen("case", ("mandatory", spec.identifier, sorted(stored)))


def structural_case(ctx):
    """without any known config, the output has the keys all models have in common"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(1, 3)
    names = [f"zz.layer.{i}" for i in range(rng.randint(1, 7))]
    models, dicts = [], []
    for j in range(n):
        d = {k: tagged(j + 1, i, (2,), torch.float32) for i, k in enumerate(names) if rng.random() < 0.8}
        d.setdefault(names[0], tagged(j + 1, 0, (2,), torch.float32))
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items)
        dicts.append(d)
        if rng.random() < 0.5:
            models.append(sd_mecha.model(d))
        else:
            models.append(sd_mecha.model(write_safetensors(tmp / f"s{j}.safetensors", d)))
    common = set(dicts[0]).intersection(*dicts[1:])
    recipe = models[0] if n == 1 else sd_mecha.n_average(*models)
    kw = options(rng)
    expected = {k: sum(d[k].double() for d in dicts) / n for k in common}
    expected = {k: v.float() for k, v in expected.items()}
    ctx.note(models=[sorted(d) for d in dicts])
    out = run(ctx, recipe, kw, tmp)
    compare(ctx, expected, out, models=[sorted(d) for d in dicts])
    ctx.count("structural merges")
    ctx.seen("case", ("structural", [sorted(d) for d in dicts]))


def ema_history(ctx):
    """options of one merge do not stick to the next ones"""
    rng = ctx.rng
    spec = SPECS[rng.choice([0, 2])]
    stored, canon, extra = source(ctx, spec, 1, 0.0, 0.5)
    for _ in range(5):
        omit = rng.choice([True, False])
        omit_extra = rng.choice([True, False])
        node = sd_mecha.model(dict(stored), config=spec.identifier)
        out = merge(node, omit_ema=omit, omit_extra_keys=omit_extra, **options(rng))
        expected = dict(canon)
        if omit:
            for k in spec.components["ema"]:
                expected.pop(k)
        if not omit_extra:
            expected.update(extra)
        compare(ctx, expected, out, omit_ema=omit, omit_extra_keys=omit_extra)
    ctx.seen("case", ("history", spec.identifier, ctx.index))


SCENARIOS = [("keys", keys_case, 6), ("mandatory", mandatory_case, 2), ("structural", structural_case, 2), ("ema_history", ema_history, 1), ("extra_merged", extra_merged, 2), ("extra_per_key", extra_per_key, 1)]
