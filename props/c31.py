"""The scripts and examples of the repository do what they say."""
import collections
import contextlib
import functools
import io
import os
import re
import runpy
import shutil
import sys
import torch
import yaml
from sd_mecha.extensions import model_configs
from mon import core
from mon.core import REPO
from mon.util import rand_bits, read_safetensors, same, describe, write_safetensors

ID = "C31"
RULE = ("the scripts run in forked processes, each in its own directory, over random model files (any dtypes, shapes, key names, order of the data) and checkpoints (nested or not, shared, sliced, "
        "transposed and expanded tensors, things that are not tensors); the examples run over random files of the names that they mention. "
        "Outputs are read by an independent reader and compared bit for bit. Distinct by (scenario, contents, arguments)")
ASSUMPTIONS = ["the examples are judged by the models they say to merge, those with random results only by keys and shapes"]
BUDGET = {"quick": (1000000, 13), "thorough": (10**8, 200)}
REQUIRED = {"configs written": 30, "keys described": 200, "listings": 20, "checkpoints converted": 30, "checkpoints refused": 5, "examples run": 12, "tensors compared": 200}

SCRIPTS = REPO / "scripts"
EXAMPLES = REPO / "examples"
KINDS = [torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool]
CHARS = "ab.c_01: #-é{}[]'\"*&!|>%@"


def program(path, args, cwd, names=()):
    """in a forked process: runs a file as the interpreter would, in a directory; returns (exit status, printed text, wanted globals)"""
    os.chdir(cwd)
    sys.argv = [str(path), *map(str, args)]
    out, kept = io.StringIO(), {}
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err:
        try:
            env = runpy.run_path(str(path), run_name="__main__")
            status = 0
            kept = {n: env[n] for n in names}
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) or e.code is None else 1
        except Exception as e:
            status = f"{type(e).__name__}: {e}"
    return status or 0, out.getvalue(), kept, err.getvalue()[-1500:]


def run(ctx, path, *args, cwd, names=()):
    kind, value = ctx.fork(program, path, args, cwd, names)
    ctx.check(kind == "ok", f"{path.name} {args} ended with {kind}: {value}")
    return value


def key_names(rng, n):
    out = {}
    while len(out) < n:
        if rng.random() < 0.6:
            k = f"model.{rng.choice('abc')}.{rng.randint(0, 99)}.{rng.choice(['weight', 'bias'])}"
        else:
            k = "".join(rng.choice(CHARS) for _ in range(rng.randint(1, 9)))
        if k != "__metadata__":
            out[k] = None
    return list(out)


def model_file(ctx, tmp):
    rng = ctx.rng
    tensors = {k: rand_bits(rng, tuple(rng.randint(0 if rng.random() < 0.1 else 1, 5) for _ in range(rng.randint(0, 4))), rng.choice(KINDS)) for k in key_names(rng, rng.choice([1, 2, 5, 12]))}
    order = list(tensors)
    rng.shuffle(order)
    path = write_safetensors(tmp / rng.choice(["m.safetensors", "my model.safetensors", "m.b-c.safetensors"]), tensors, metadata=rng.choice([None, {"a": "b"}]), order=order, header_pad=rng.choice([0, 7]))
    return path, tensors


def config(ctx):
    """yaml_from_safetensors writes a config of exactly the keys of the model"""
    rng = ctx.rng
    tmp, cwd = ctx.tmpdir(), ctx.tmpdir()
    path, tensors = model_file(ctx, tmp)
    bad = rng.random() < 0.15
    ident = rng.choice(["plain", "", "a-", "-b"]) if bad else rng.choice(["vm31", "a.b", "1", "x_y"]) + f"{rng.randrange(10**6)}-" + rng.choice(["x", "1", "on", "a_b"])
    old = rng.random() < 0.3
    if old:
        (cwd / f"{ident}.yaml").write_text("old: " + "x" * 5000)
    before = raw_file(path)
    status, text, _, err = run(ctx, SCRIPTS / "yaml_from_safetensors.py", ident, path, cwd=cwd)
    what = f"yaml_from_safetensors {ident!r}"
    ctx.check(raw_file(path) == before and os.listdir(tmp) == [path.name], f"{what}: the model file changed")
    if bad:
        ctx.check(status != 0 or valid(cwd / f"{ident}.yaml", ident), f"{what}: a malformed identifier was accepted", identifier=ident)
        return
    ctx.check(status == 0, f"{what}: failed with {status}", error=err, keys=list(tensors))
    ctx.check(os.listdir(cwd) == [f"{ident}.yaml"], f"{what}: wrote {os.listdir(cwd)}")
    text = (cwd / f"{ident}.yaml").read_text(encoding="utf-8")
    plain = yaml.load(text, Loader=yaml.SafeLoader)
    ctx.check(isinstance(plain, dict) and plain.get("identifier") == ident, f"{what}: wrong identifier", text=text[:500])
    got = {}
    for c in plain["components"].values():
        for k, v in c.items():
            ctx.check(k not in got, f"{what}: key {k!r} is there twice")
            got[k] = v
    ctx.check(set(got) == set(tensors), f"{what}: the config has other keys", expected=sorted(tensors), observed=sorted(got))
    for k, t in tensors.items():
        v = got[k]
        ctx.check(v.get("shape") == list(t.shape) and v.get("dtype") == str(t.dtype).split(".")[1] and not v.get("aliases") and not v.get("optional"), f"{what}: key {k!r} is described as {v}, it is {describe(t)}")
        ctx.count("keys described")
    loaded = model_configs.from_yaml(text)
    for k, t in tensors.items():
        m = loaded.keys()[k]
        ctx.check(m.shape == t.shape and m.dtype == t.dtype, f"{what}: the config is read as {m} for {k!r}", expected=describe(t))
    ctx.count("configs written")
    ctx.seen("case", ("config", ident, tuple(tensors), tuple(t.shape for t in tensors.values())))
    ctx.sample(identifier=ident, keys=list(tensors)[:6], text=text[:200])


def raw_file(path):
    with open(path, "rb") as f:
        return f.read()


def valid(path, ident):
    return path.exists() and yaml.load(path.read_text(), Loader=yaml.SafeLoader).get("identifier") == ident and model_configs.from_yaml(path.read_text()).identifier == ident


def listing(ctx):
    """dump_keys prints each key once"""
    rng = ctx.rng
    tmp = ctx.tmpdir()
    path, tensors = model_file(ctx, tmp)
    status, text, _, err = run(ctx, SCRIPTS / "dump_keys.py", path, cwd=tmp)
    ctx.check(status == 0, f"dump_keys failed with {status}", error=err)
    ctx.check(sorted(text.split("\n")[:-1]) == sorted(tensors), "dump_keys prints other keys", expected=sorted(tensors), observed=text)
    ctx.check(os.listdir(tmp) == [path.name], "dump_keys wrote something")
    ctx.count("listings")
    ctx.seen("case", ("listing", tuple(tensors)))


def layout(rng, t):
    """a tensor of the same values with another layout in memory"""
    how = rng.choice(["plain", "plain", "transposed", "sliced", "strided", "expanded", "channels"])
    if how == "transposed" and t.ndim >= 2:
        return t.transpose(0, -1)
    if how == "sliced" and t.ndim and t.shape[0] > 1:
        return t[1:]
    if how == "strided" and t.ndim:
        return t[..., ::2]
    if how == "expanded" and t.ndim and t.shape[0] >= 1:
        return t[:1].expand(3, *t.shape[1:])
    if how == "channels" and t.ndim == 4:
        return t.to(memory_format=torch.channels_last)
    return t


class Unknown:
    pass


def checkpoint(ctx):
    """convert_ckpt_to_safetensors keeps every tensor"""
    rng = ctx.rng
    tmp = ctx.tmpdir()
    tensors = collections.OrderedDict()
    for k in key_names(rng, rng.choice([1, 2, 4, 9])):
        if tensors and rng.random() < 0.2:
            t = tensors[rng.choice(list(tensors))]
            tensors[k] = rng.choice([t, layout(rng, t), t.detach()])
            continue
        t = layout(rng, rand_bits(rng, tuple(rng.randint(0 if rng.random() < 0.1 else 1, 5) for _ in range(rng.choice([0, 1, 2, 2, 4]))), rng.choice(KINDS)))
        tensors[k] = torch.nn.Parameter(t, requires_grad=t.dtype.is_floating_point) if rng.random() < 0.15 and t.dtype.is_floating_point else t
    content = dict(tensors) if rng.random() < 0.5 else tensors
    wrong = rng.choice([None] * 8 + ["number", "object", "suffix", "missing", "garbage"])
    if wrong == "number":
        content = dict(content)
        content[key_names(rng, 1)[0] + "_n"] = rng.choice([3, 0.5, "text", [1, 2]])
    if rng.random() < 0.6:
        content = {"epoch": 3, "state_dict": content, "global_step": 12, "hyper": {"lr": 0.1}}
        if rng.random() < 0.5:
            content = {k: content[k] for k in rng.sample(list(content), len(content))}
    if wrong == "object":
        content = {"state_dict": content.get("state_dict", content), "callbacks": Unknown}
    src = tmp / rng.choice(["m.ckpt", "m.pt", "m.pth", "my model.ckpt"])
    torch.save(content, src)
    if wrong == "missing":
        src = tmp / "other.ckpt"
    elif wrong == "garbage":
        data = raw_file(src)
        src.write_bytes(data[:rng.randrange(len(data) // 2)])
    dst = tmp / ("out" + (rng.choice([".ckpt", ".pt", "", ".safetensors.bak"]) if wrong == "suffix" else ".safetensors"))
    old = rng.random() < 0.3
    if old:
        dst.write_bytes(b"old content" * 30)
    before = {p.name: raw_file(p) for p in tmp.iterdir()}
    flags = ("-i", "-o") if rng.random() < 0.5 else ("--input", "--output")
    status, text, _, err = run(ctx, SCRIPTS / "convert_ckpt_to_safetensors.py", flags[0], src, flags[1], dst, cwd=tmp)
    after = {p.name: raw_file(p) for p in tmp.iterdir()}
    ctx.seen("case", ("checkpoint", tuple(tensors), wrong, old))
    ctx.note(wrong=wrong, tensors={k: describe(t.detach()) for k, t in tensors.items()})
    if wrong and (wrong != "number" or status != 0):
        ctx.check(status != 0, f"a checkpoint that cannot be converted ({wrong}) was accepted", text=text)
        ctx.check(after == before, f"a refused conversion ({wrong}) changed files", expected=sorted(before), observed=sorted(after))
        ctx.count("checkpoints refused")
        return
    ctx.check(status == 0, f"a checkpoint of tensors was refused: {status}", error=err, layouts={k: (tuple(t.shape), t.stride()) for k, t in tensors.items()})
    ctx.check(set(after) == {src.name, dst.name} and after[src.name] == before[src.name], "the conversion changed other files", observed=sorted(after))
    got, _ = read_safetensors(dst)
    ctx.check(set(got) == set(tensors), "the converted file has other keys", expected=sorted(tensors), observed=sorted(got))
    for k, t in tensors.items():
        ctx.check(same(got[k], t.detach()), f"the converted file holds another tensor for {k!r}", expected=describe(t.detach()), observed=describe(got[k]))
        ctx.count("tensors compared")
    ctx.count("checkpoints converted")


# ----- examples
LDM = {
    "model.diffusion_model.out.2.bias": (4,),
    "model.diffusion_model.input_blocks.0.0.weight": (320, 4, 3, 3),
    "first_stage_model.quant_conv.bias": (8,),
    "cond_stage_model.transformer.text_model.encoder.layers.0.layer_norm1.bias": (768,),
    "cond_stage_model.transformer.text_model.encoder.layers.0.self_attn.q_proj.weight": (768, 768),
}
LORA_KEY = "cond_stage_model.transformer.text_model.encoder.layers.0.self_attn.q_proj.weight"
LORA = "lora_te_text_model_encoder_layers_0_self_attn_q_proj"
G, D, P = "ghostmix_v20Bakedvae", "dreamshaper_332BakedVaeClipFix", "pure/v1-5-pruned"


def average(*names):
    return lambda m, k: sum(m[n][k] for n in names) / len(names)


def perpendicular(m, k):
    a, b, c = (m[n][k] for n in (G, D, P))
    x, y = a - c, b - c
    return a + y - (x * y).sum() / (x * x).sum() * x


def lora(m, k):
    if k != LORA_KEY:
        return m[G][k]
    f = m["head-mounted display3-000007"]
    return m[G][k] + 2.0 / 4 * (f[LORA + ".lora_up.weight"] @ f[LORA + ".lora_down.weight"])


def split(m, k):
    a, b, c = (m[n][k] for n in ("js2prony_v10", "furry-xl-4.0", "pure/sdxl_base"))
    if k.startswith("model.diffusion_model."):
        return (a + b) / 2
    x, y = a - c, b - c
    return a + y - (x * y).sum() / (x * x).sum() * x


def split_sd1(m, k):
    return (m[G][k] + m[D][k]) / 2 if k.startswith("model.diffusion_model.") else perpendicular(m, k)


FILE, VALUE = "file", "value"
# name -> (where the result is, reference of a key or None where it is random, lora deltas and fallbacks included)
JUDGED = {
    "basic_merge": (FILE, "output.safetensors", average(G, D)),
    "in_memory_merge": (VALUE, "sd", average(G, D)),
    "add_perpendicular": (FILE, "result.safetensors", perpendicular),
    "n_average": (VALUE, "sd", average(G, D, "deliberate_v2", "darkSushi25D25D_v20", "CounterfeitV30_v30")),
    "lora_merge": (VALUE, "sd", lora),
    "split_unet_text_encoder": (VALUE, "sd", split),
    "custom_merge_method": (FILE, "custom_merge.safetensors", None),
    "binomial_dropout_merge": (VALUE, "sd", None),
    "ties_add_difference": (VALUE, "sd", None),
    "rotate": (VALUE, "sd", None),
    "recipe_serialize": None,
}


# listed findings: what is wrong with the example, and the line that would be right; everything else about it is still judged
FINDINGS = {
    "n_average": ("n_average(*models)", "n_average(*(sd_mecha.model(f\"{m}.safetensors\") for m in models))"),
    "lora_merge": ("add_difference(base, lora, alpha=1.0)", "add_difference(base, lora, alpha=1.0) | base"),
}


def has_finding(name, status, kept, err):
    if name == "n_average":
        return str(status).startswith("ValueError") and "'param'" in str(status)
    return status == 0 and set(kept["sd"]) == {LORA_KEY}


def examples(ctx):
    one_example(ctx, ctx.rng.choice(sorted(n for n in JUDGED if (EXAMPLES / f"{n}.py").exists())))


def one_example(ctx, name):
    rng = ctx.rng
    cwd = ctx.tmpdir()
    for f in EXAMPLES.glob("*.py"):
        shutil.copy(f, cwd / f.name)
    (cwd / "recipes").mkdir()
    source = (cwd / f"{name}.py").read_text()
    gen = torch.Generator().manual_seed(rng.getrandbits(40))
    models = {}
    for n in {s.removesuffix(".safetensors") for s in re.findall(r'"([^"\n]+)"', source)}:
        path = cwd / f"{n}.safetensors"
        if n in ("output", "result", "custom_merge", "sd1-ldm") or not (f"{n}.safetensors" in source or name == "n_average"):
            continue
        path.parent.mkdir(exist_ok=True)
        if "display3" in n:
            models[n] = {LORA + ".lora_up.weight": torch.randn(768, 4, generator=gen), LORA + ".lora_down.weight": torch.randn(4, 768, generator=gen), LORA + ".alpha": torch.tensor(2.0)}
        else:
            models[n] = {k: torch.randn(s, generator=gen) for k, s in LDM.items()}
        write_safetensors(path, models[n])
    kind = JUDGED[name]
    names = (kind[1],) if kind and kind[0] == VALUE else ()
    before = {p for p in cwd.rglob("*") if p.is_file()}
    status, text, kept, err = run(ctx, cwd / f"{name}.py", cwd=cwd, names=names)
    if name in FINDINGS and FINDINGS[name][0] in source and has_finding(name, status, kept, err):
        key = f"example:{name}"
        listed = core.load_known(ID)
        ctx.check(key in listed, f"the example {name} does not do what it says", status=status, error=err)
        ctx.finding(key, listed[key]["what"])
        (cwd / f"{name}.py").write_text(source.replace(*FINDINGS[name]))
        status, text, kept, err = run(ctx, cwd / f"{name}.py", cwd=cwd, names=names)
    ctx.check(status == 0, f"the example {name} fails with {status}", error=err)
    new = {p for p in cwd.rglob("*") if p.is_file()} - before
    if name == "recipe_serialize":
        ctx.check(new == {cwd / "recipes" / "test_split_unet_text_encoder.mecha"}, f"the example {name} wrote {new}")
        status, text, kept, err = run(ctx, cwd / "recipe_deserialize.py", cwd=cwd, names=("sd",))
        ctx.check(status == 0, f"the example recipe_deserialize fails with {status}", error=err)
        got, ref = kept["sd"], split_sd1
    else:
        where, what, ref = kind
        if where == FILE:
            ctx.check(new == {cwd / what}, f"the example {name} wrote {new}")
            got, _ = read_safetensors(cwd / what)
        else:
            ctx.check(not new, f"the example {name} wrote {new}")
            got = kept[what]
    ctx.check(set(got) == set(LDM), f"the example {name} gives other keys", expected=sorted(LDM), observed=sorted(got))
    for k, t in got.items():
        ctx.check(tuple(t.shape) == LDM[k] and bool(torch.isfinite(t).all()), f"the example {name} gives {describe(t)} for {k!r}")
        if ref is not None:
            doubles = {n: {j: v.double() for j, v in m.items()} for n, m in models.items()}
            want = ref(doubles, k)
            error = float((t.double() - want).abs().max())
            ctx.check(error <= 0.01 * max(1.0, float(want.abs().max())), f"the example {name} gives wrong values for {k!r}: off by {error}", expected=describe(want), observed=describe(t))
        ctx.count("tensors compared")
    ctx.count("examples run")
    ctx.count(f"example {name}")
    ctx.seen("case", ("example", name))


DIRECTED = [(f"example {name}", functools.partial(one_example, name=name)) for name in sorted(JUDGED)]
SCENARIOS = [("config", config, 4), ("listing", listing, 2), ("checkpoint", checkpoint, 5), ("examples", examples, 2)]
