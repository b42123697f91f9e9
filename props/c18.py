"""The config of a model that is given without one is the registered config that fits it best, or none."""
import functools
import threading
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from sd_mecha.extensions import model_configs
from torch import Tensor
from mon import lab
from mon.util import merge, write_safetensors, captured_logs

ID = "C18"
RULE = ("state dicts sampled from the keys of every registered config (complete, partial, mixed, with foreign keys, under aliases) are merged without a config or with 'infer', "
        "from files and dictionaries; the config that a probe method sees is compared with the registered config that has the most keys in common (10% at least), independently counted. "
        "Random overlapping configs are registered too; parameters with a declared config get it when it is a candidate. Distinct by (candidates, matched counts, way)")
ASSUMPTIONS = ["when several configs match equally many keys, any of them, or none, is accepted"]
BUDGET = {"quick": (100000, 13), "thorough": (10**7, 300)}
REQUIRED = {"inferred": 300, "not inferred": 40, "configs inferred": 20, "declared": 40, "declared twins": 20, "refused": 20, "keys under an alias": 200}

lab.register(lab.A, lab.B)
SEEN, LOCK = set(), threading.Lock()


@merge_method
def vm18_probe(x: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    with LOCK:
        SEEN.add(x.model_config.identifier)
    return x[kwargs["key"]]


LORA_PREFIXES = {"lycoris": "lycoris", "kohya": "lora"}
names_cache = {}


def names_of(config):
    """all the names that a config accepts"""
    if config.identifier not in names_cache:
        for style, prefix in LORA_PREFIXES.items():
            if config.identifier.endswith(f"_{style}_lora"):
                # made from another config: its names are those of the base config, written in the style of the loras
                base = model_configs.resolve(config.identifier.removesuffix(f"_{style}_lora"))
                names_cache[config.identifier] = frozenset(
                    f"{prefix}_{k.removesuffix('.weight').replace('.', '_')}.{part}"
                    for key, meta in base.keys().items()
                    if not key.endswith("bias") and (meta.dtype is None or meta.dtype.is_floating_point)
                    for k in (key, *meta.aliases)
                    for part in ("lora_up.weight", "lora_down.weight", "alpha")
                )
                break
        else:
            names_cache[config.identifier] = frozenset(k for key, meta in config.keys().items() for k in (key, *meta.aliases))
    return names_cache[config.identifier]


def expectation(keys):
    """(maximizers, matched) over the registered configs"""
    keys = set(keys)
    counts = {c.identifier: len(keys & names_of(c)) for c in (*model_configs.get_all_base(), *model_configs.get_all_aux())}
    best = max(counts.values())
    if best < 0.1 * len(keys) or best == 0:
        return set(), best
    return {c for c, n in counts.items() if n == best}, best


def observed(ctx, node, **kw):
    SEEN.clear()
    out = merge(vm18_probe(node), strict_weight_space=False, omit_ema=False, threads=ctx.rng.choice([0, 2]), merge_dtype=None, output_dtype=None, **kw)
    ctx.check(len(SEEN) <= 1, f"one model was seen with several configs: {SEEN}")
    return next(iter(SEEN), None), out


def judge(ctx, keys, what):
    rng, tmp = ctx.rng, ctx.tmpdir()
    keys = list(dict.fromkeys(keys))
    best, matched = expectation(keys)
    d = {k: torch.tensor([float(i)]) for i, k in enumerate(keys)}
    as_file = rng.random() < 0.4
    config = rng.choice([None, "infer"])
    node = sd_mecha.model(write_safetensors(tmp / "m.safetensors", d) if as_file else d, config=config)
    what = f"{what} ({len(keys)} keys, {'file' if as_file else 'dict'}, config={config})"
    ctx.note(what=what, keys=keys[:10], candidates=sorted(best), matched=matched)
    ctx.seen("case", (tuple(sorted(best)), matched, len(keys), as_file, config))
    try:
        with captured_logs():
            got, out = observed(ctx, node)
    except Exception as e:
        got, out = e, {}
    if len(best) == 1:
        expected = next(iter(best))
        ctx.check(got == expected, f"{what}: the best config is {expected} with {matched} keys, observed {got!r}")
        accepted = set(model_configs.resolve(expected).keys())
        ctx.check(set(out) <= accepted, f"{what}: the result has keys that {expected} does not have")
        ctx.count("inferred")
        ctx.seen("configs inferred", expected)
    elif not best:
        if config == "infer":
            ctx.check(isinstance(got, Exception), f"{what}: no config has 10% of the keys, but {got} was inferred")
            ctx.count("refused")
        else:
            ctx.check(got == "structural", f"{what}: no config has 10% of the keys, observed {got!r}")
            ctx.check(set(out) == set(keys), f"{what}: a structural merge must keep all keys")
        ctx.count("not inferred")
    else:
        ctx.check(got in best or got == "structural" or isinstance(got, Exception), f"{what}: candidates are {sorted(best)}, observed {got!r}")
        ctx.count("ties")


def builtin(ctx):
    rng = ctx.rng
    config = rng.choice(model_configs.get_all_base() + model_configs.get_all_aux())
    keys = list(config.keys())
    how = rng.choice(["complete", "most", "some", "few", "foreign"])
    if how == "most":
        keys = rng.sample(keys, max(1, int(len(keys) * rng.uniform(0.5, 0.99))))
    elif how in ("some", "foreign"):
        keys = rng.sample(keys, max(1, min(len(keys), rng.randint(1, 200))))
    elif how == "few":
        keys = rng.sample(keys, min(len(keys), rng.randint(1, 5)))
    if rng.random() < 0.4:
        # under their other names
        p, aliases = rng.choice([0.5, 1.0]), config.aliases()
        renamed = [rng.choice(list(aliases[k])) if aliases[k] and rng.random() < p else k for k in keys]
        ctx.count("keys under an alias", sum(a != b for a, b in zip(keys, renamed)))
        keys = renamed
    if how == "foreign":
        n = int(len(keys) * rng.choice([0.5, 5, 8.5, 9.5, 30]))
        keys += [f"foreign.{i}" for i in range(n)]
    elif rng.random() < 0.3:
        keys += [f"extra.{i}" for i in range(rng.randint(1, 3))]
    rng.shuffle(keys)
    judge(ctx, keys, f"{how} keys of {config.identifier}")


def complete(ctx):
    """a complete model of each built-in config is recognized, unless another config accepts all its keys too"""
    for config in model_configs.get_all_base() + model_configs.get_all_aux():
        if config.identifier.startswith("vm"):
            continue
        best, matched = expectation(config.keys())
        d = {k: torch.zeros(1) for k in config.keys()}
        with captured_logs():
            got, _ = observed(ctx, sd_mecha.model(d, config="infer")) if len(best) == 1 else (config.identifier, None)
        ctx.check(got == config.identifier, f"a complete model of {config.identifier} was taken for {got}")
        ctx.count("complete builtin models")


n_registered = [0]


def overlapping(ctx):
    """random configs that share keys"""
    rng = ctx.rng
    n_registered[0] += 1
    tag = f"vmc18{ctx.scenario[0]}{ctx.index}x{n_registered[0]}"
    pool = [f"{tag}.k{i}" for i in range(rng.randint(5, 40))]
    configs = []
    for i in range(rng.randint(2, 4)):
        keys = rng.sample(pool, rng.randint(2, len(pool)))
        lines = []
        for k in keys:
            aliases = f", aliases: [{k}.alias]" if rng.random() < 0.2 else ""
            lines.append(f"    {k}: {{shape: [1], dtype: float32{aliases}}}")
        config = model_configs.from_yaml(f"identifier: {tag}-{i}\ncomponents:\n  main:\n" + "\n".join(lines) + "\n")
        rng.choice([model_configs.register, model_configs.register_aux])(config)
        configs.append(config)
    for _ in range(3):
        names = sorted(set().union(*(names_of(c) for c in configs)) if rng.random() < 0.5 else names_of(rng.choice(configs)))
        keys = rng.sample(names, rng.randint(1, len(names)))
        keys += [f"foreign.{i}" for i in range(rng.choice([0, 0, 1, len(keys), 9 * len(keys), 9 * len(keys) + 1, 12 * len(keys)]))]
        # a key and its alias in the same model are ambiguous
        keys = [k for k in keys if f"{k}.alias" not in keys]
        judge(ctx, keys, "overlapping configs")

    # a declared config is preferred over better candidates, also behind operators that accept any config
    target = rng.choice(configs)
    twin = rng.random() < 0.5
    if twin:
        # another config has the same keys
        text = model_configs.to_yaml(target)
        text = text.replace(f"identifier: {target.identifier}", f"identifier: {tag}-{rng.choice(['.', 'z'])}", 1)
        model_configs.register(model_configs.from_yaml(text))

    @merge_method(identifier=f"{tag}_declared")
    def declared(x: Parameter(StateDict[Tensor], model_config=target), **kwargs) -> Return(Tensor, model_config=target):
        with LOCK:
            SEEN.add(x.model_config.identifier)
        return x[kwargs["key"]]

    keys = rng.sample(sorted(target.keys()), len(target.keys()) if twin else rng.randint(1, len(target.keys())))
    d = {k: torch.zeros(1) for k in keys}
    node = sd_mecha.model(d, config=rng.choice([None, "infer"]))
    nested = rng.random() < 0.5
    if nested:
        node = sd_mecha.n_average(node, sd_mecha.model(dict(d), config=rng.choice([None, target.identifier])))
    best, matched = expectation(keys)
    SEEN.clear()
    out = merge(declared(node), merge_dtype=rng.choice([None, torch.float64]), strict_weight_space=False)
    ctx.check(SEEN == {target.identifier}, f"a parameter of config {target.identifier} was seen as {SEEN}")
    ctx.check(set(out) == set(keys), "a parameter with a declared config: wrong keys", missing=sorted(set(keys) - set(out))[:5])
    ctx.count("declared")
    ctx.count("declared twins", twin)


def explicit(ctx):
    """an explicit config is never replaced"""
    rng = ctx.rng
    spec = rng.choice([lab.A, lab.B])
    other = lab.B if spec is lab.A else lab.A
    d = {k: torch.zeros(1) for k in other.keys} | {next(iter(spec.keys)): torch.ones(1)}
    with captured_logs():
        got, out = observed(ctx, sd_mecha.model(d, config=rng.choice([spec.identifier, model_configs.resolve(spec.identifier)])))
    ctx.check(got == spec.identifier and set(out) == {next(iter(spec.keys))}, f"a model of explicit config {spec.identifier} was merged as {got}, giving {sorted(out)}")
    ctx.count("explicit")


DIRECTED = [("complete", complete)]
SCENARIOS = [("builtin", builtin, 4), ("overlapping", overlapping, 4), ("explicit", explicit, 1)]
