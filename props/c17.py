"""LoRA files are composed into the exact weight deltas of their base model, for every built-in base config."""
import functools
import torch
import sd_mecha
from sd_mecha.extensions import model_configs
from mon.util import merge, describe, rand_tensor, write_safetensors, expect_same

ID = "C17"
BASES = ["sdxl-supermerger_blocks", "sdxl-kohya", "sdxl-diffusers_unet_only", "sd1-kohya", "flux-flux", "sd1-supermerger_blocks",
         "flux-flux_diffuser_only", "sd3-comfyui", "sd1-ldm", "sdxl-sgm"]
STYLES = {"lycoris": "lycoris", "kohya": "lora"}
RULE = ("LoRA state dicts (linear, 1x1 and 3x3 convolutions, random ranks and alphas, with missing parts) are made for random layers of every built-in config in both naming styles, "
        "converted and merged from files and dictionaries; each delta is compared with alpha / rank * up x down computed elementwise, and the keys with those whose three parts "
        "are there; base + strength * LoRA is compared too, and the declared LoRA keys with the layers of the base config. Distinct by (config, style, layers, ranks)")
ASSUMPTIONS = ["layers have two or four dimensions", "file names follow the two documented prefixes"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 400)}
REQUIRED = {"deltas": 800, "incomplete layers": 100, "configs": 12, "applied": 50, "layers under an alias": 20}


@functools.cache
def layers(base):
    """base key -> shape, for the layers that a LoRA can adapt"""
    res = {}
    for k, m in model_configs.resolve(base).keys().items():
        if k.endswith("bias") or m.shape is None or len(m.shape) not in (2, 4):
            continue
        if m.dtype is not None and not m.dtype.is_floating_point:
            continue
        res[k] = tuple(m.shape)
    return res


def lora_name(prefix, key):
    parts = key.split(".")
    if parts[-1] == "weight":
        parts.pop()
    return prefix + "_" + "_".join(parts)


def make_layer(rng, shape, dtype):
    o, i, r = rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 2, 3, 4, 8])
    if len(shape) == 2:
        down, up = (r, i), (o, r)
    else:
        down, up = (r, i, *shape[2:]), (o, r, 1, 1)
    exact = rng.random() < 0.7
    alpha = float(r) * rng.choice([1, 0.5, 2, 0.25]) if exact else rng.choice([1.0, 0.3, 5.0, 7.5])
    down = rand_tensor(rng, down, dtype, lo=-4, hi=4, ints=exact)
    up = rand_tensor(rng, up, dtype, lo=-4, hi=4, ints=exact)
    alpha = torch.tensor(alpha, dtype=dtype)
    d, u = down.double(), up.double()
    u = u.reshape(u.shape[0], u.shape[1])
    w = torch.zeros((u.shape[0], *d.shape[1:]), dtype=torch.float64)
    for a in range(u.shape[0]):
        for b in range(u.shape[1]):
            w[a] += u[a, b] * d[b]
    return {"alpha": alpha, "lora_down.weight": down, "lora_up.weight": up}, w * (alpha.item() / r), exact


def make_lora(ctx, rng, base, style, p_incomplete=0.15):
    eligible = layers(base)
    dtype = rng.choice([torch.float32, torch.float16, torch.bfloat16, torch.float64])
    names = rng.sample(list(eligible), min(rng.randint(1, 14), len(eligible)))
    state, deltas, exact = {}, {}, {}
    for k in names:
        parts, w, ex = make_layer(rng, eligible[k], dtype)
        keep = list(parts)
        if rng.random() < p_incomplete:
            keep.remove(rng.choice(keep))
            ctx.count("incomplete layers")
        else:
            deltas[k], exact[k] = w, ex
        aliases = list(model_configs.resolve(base).aliases()[k])
        if aliases and rng.random() < 0.5:
            # loras that are trained with the other names of the layers
            name = lora_name(STYLES[style], rng.choice(aliases))
            ctx.count("layers under an alias")
        else:
            name = lora_name(STYLES[style], k)
        for part in keep:
            state[f"{name}.{part}"] = parts[part]
    items = list(state.items())
    rng.shuffle(items)
    return dict(items), deltas, exact


def compare(ctx, want, got, exact, what, **details):
    ctx.check(set(want) == set(got), f"{what}: wrong keys", missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5], **details)
    for k, w in want.items():
        ctx.check(got[k].dtype == torch.float64 and tuple(got[k].shape) == tuple(w.shape), f"{what}: {k!r} is {describe(got[k])} instead of {describe(w)}", **details)
        ok = torch.equal(w, got[k]) if exact[k] else torch.allclose(w, got[k], rtol=1e-12, atol=1e-12)
        ctx.check(ok, f"{what}: wrong delta for {k!r}", expected=describe(w), actual=describe(got[k]), **details)
        ctx.count("deltas")


def lora_node(ctx, rng, state, config):
    tmp = ctx.tmpdir()
    if rng.random() < 0.5:
        return sd_mecha.model(write_safetensors(tmp / "lora.safetensors", state), config=config), "file"
    return sd_mecha.model(state, config=config), "dict"


def bases_with_layers():
    return [b for b in BASES if layers(b)]


def compose(ctx):
    rng = ctx.rng
    base, style = rng.choice(bases_with_layers()), rng.choice(list(STYLES))
    state, deltas, exact = make_lora(ctx, rng, base, style)
    if not state:
        return
    config = f"{base}_{style}_lora"
    node, kind = lora_node(ctx, rng, state, config)
    what = f"{config} ({kind})"
    ctx.note(config=config, layers=list(deltas), kind=kind)
    res = sd_mecha.convert(node, base)
    out = merge(res, output_dtype=torch.float64, strict_weight_space=False, threads=rng.choice([0, 2]), omit_ema=False)
    compare(ctx, deltas, out, exact, what)
    ctx.seen("configs", config)
    ctx.seen("case", (config, kind, tuple(sorted((k, tuple(v.shape)) for k, v in deltas.items()))))


def applied(ctx):
    """the usual way to use it: base + strength * lora, layers that the LoRA does not have stay as they are"""
    rng = ctx.rng
    base, style = rng.choice(bases_with_layers()), rng.choice(list(STYLES))
    state, deltas, exact = make_lora(ctx, rng, base, style, 0.1)
    if not deltas:
        return
    node, kind = lora_node(ctx, rng, state, f"{base}_{style}_lora")
    others = rng.sample(list(layers(base)), min(3, len(layers(base))))
    weights = {k: rand_tensor(rng, tuple(w.shape), torch.float32) for k, w in deltas.items()}
    weights |= {k: rand_tensor(rng, (2, 3), torch.float32) for k in others if k not in weights}
    model = sd_mecha.model(dict(weights), config=base)
    strength = rng.choice([1.0, 0.5, -0.25])
    mixed = sd_mecha.add_difference(model, sd_mecha.convert(node, rng.choice([base, model])), alpha=strength)
    if rng.random() < 0.5:
        out = merge(mixed, fallback_model=model, output_dtype=torch.float64, omit_ema=False)
    else:
        out = merge(mixed | model, output_dtype=torch.float64, omit_ema=False)
    want = {k: (w.double() + strength * deltas[k] if k in deltas else w.double()) for k, w in weights.items()}
    compare(ctx, want, out, {k: exact.get(k, True) for k in want}, f"{base} + {strength} * {style} lora")
    ctx.count("applied")
    ctx.seen("case", ("applied", base, style, kind, strength, tuple(want)))


def several(ctx):
    """several LoRAs of several styles on the same base"""
    rng = ctx.rng
    base = rng.choice(bases_with_layers())
    eligible = list(layers(base))
    keys = rng.sample(eligible, min(4, len(eligible)))
    total, nodes = {}, []
    shapes = {}
    for style in STYLES:
        state = {}
        for k in keys:
            r = rng.choice([1, 2, 4])
            o, i = shapes.setdefault(k, (rng.randint(1, 3), rng.randint(1, 3)))
            tail = layers(base)[k][2:]
            down, up = rand_tensor(rng, (r, i, *tail), torch.float32, lo=-3, hi=3), rand_tensor(rng, (o, r, *([1, 1] if tail else [])), torch.float32, lo=-3, hi=3)
            name = lora_name(STYLES[style], k)
            state |= {f"{name}.lora_up.weight": up, f"{name}.lora_down.weight": down, f"{name}.alpha": torch.tensor(float(2 * r))}
            w = torch.einsum("or,ri...->oi...", up.double().reshape(o, r), down.double()) * 2
            total[k] = total.get(k, 0) + 0.5 * w
        nodes.append(sd_mecha.convert(lora_node(ctx, rng, state, f"{base}_{style}_lora")[0], base))
    out = merge(sd_mecha.n_average(*nodes), output_dtype=torch.float64, strict_weight_space=False, omit_ema=False, threads=rng.choice([0, 3]))
    compare(ctx, total, out, {k: True for k in total}, f"average of the LoRAs of {base}")
    ctx.seen("case", ("several", base, tuple(keys)))


def declared(ctx):
    """each LoRA config declares the three keys of every layer of its base, optional, and nothing else"""
    for base in BASES:
        for style, prefix in STYLES.items():
            config = model_configs.resolve(f"{base}_{style}_lora")
            ctx.check(config.identifier == f"{base}_{style}_lora", f"resolve({base}_{style}_lora) gave {config.identifier}")
            want = {}
            for component, c in model_configs.resolve(base).components().items():
                for k, m in c.keys().items():
                    if k.endswith("bias") or m.dtype is not None and not m.dtype.is_floating_point:
                        continue
                    for part in ("alpha", "lora_down.weight", "lora_up.weight"):
                        want[f"{lora_name(prefix, k)}.{part}"] = component
            got = {k: component for component, c in config.components().items() for k in c.keys()}
            ctx.check(want == got, f"{config.identifier} declares wrong keys or components", missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5])
            ctx.check(set(config.keys()) == set(want), f"{config.identifier}: keys() and components() disagree")
            aliases = {f"{lora_name(prefix, k)}.{part}": {f"{lora_name(prefix, a)}.{part}" for a in m.aliases}
                       for k, m in model_configs.resolve(base).keys().items() for part in ("alpha", "lora_down.weight", "lora_up.weight")}
            for k, m in config.keys().items():
                ctx.check(set(m.aliases) == aliases[k], f"{config.identifier}: wrong aliases for {k!r}: {m.aliases}")
            ctx.check(all(m.optional for m in config.keys().values()), f"{config.identifier}: all keys must be optional")
            ctx.count("declared keys", len(want))


DIRECTED = [("declared", declared)]
SCENARIOS = [("compose", compose, 5), ("applied", applied, 2), ("several", several, 1)]
