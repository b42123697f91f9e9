"""What a merge reports (warnings, errors, progress) is exactly what happened."""
import io
import math
import re
import threading
import torch
import tqdm as tqdm_module
import sd_mecha
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.recipe_nodes import ModelRecipeNode
from sd_mecha.extensions import merge_methods, model_configs, merge_spaces
from torch import Tensor
from mon import lab
from mon.core import Skip
from mon.util import merge, QuietBar, captured_logs, read_safetensors, rand_tensor

ID = "C28"
RULE = ("random models with nan, infinities, values that overflow only in the output dtype, extra keys and missing keys, merged through several operations to memory and files with "
        "random threads and options; the warnings, the names in errors, and the progress counts are compared with the output and the inputs themselves. "
        "Distinct by (scenario, recipe, irregularities, options)")
ASSUMPTIONS = ["only which keys and models a message names is judged, not its wording"]
BUDGET = {"quick": (1000000, 13), "thorough": (10**8, 300)}
REQUIRED = {"keys warned about": 300, "finite keys": 1000, "silent merges": 50, "progress": 100, "extra keys named": 100, "mandatory errors": 50, "unserializable": 30, "names refused": 50}

lab.register(lab.A, lab.B)
OUT_DTYPES = [torch.float16, torch.float32, torch.float64, torch.bfloat16, torch.float8_e5m2, torch.float8_e4m3fn, None]


@merge_method
def vm28_ratio(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):
    return a / b


@merge_method
def vm28_poison(a: Parameter(Tensor), every: Parameter(int), what: Parameter(float), **kwargs) -> Return(Tensor):
    """what in the last element of some of the keys"""
    if a.numel() and sum(map(ord, kwargs["key"])) % every == 0:
        a = a.clone()
        a.view(-1)[-1] = what
    return a


def mentions(records, names):
    """name -> number of messages that name it"""
    found = dict.fromkeys(names, 0)
    for r in records:
        tokens = set(re.findall(r"[\w.]+", r.getMessage()))
        for n in tokens & found.keys():
            found[n] += 1
    return found


def poison(rng, state, p):
    for t in state.values():
        if t.numel() and rng.random() < p:
            t.view(-1)[rng.randrange(t.numel())] = rng.choice([math.inf, -math.inf, math.nan, 1e30, 60000.0, 66000.0, 1e5])
    return state


def model(ctx, tmp, p=0.0, spec=lab.A, p_missing=0.0, extra=0, name=None, file=None):
    rng = ctx.rng
    stored, canon = lab.rand_state(rng, spec, dtype=rng.choice([torch.float32, torch.float64]), p_missing=p_missing, lo=1)
    poison(rng, stored, p)
    for i in range(extra):
        stored[f"unknown.{name}.{i}"] = torch.ones(2)
    return lab.as_model(rng, stored, tmp, spec.identifier, name=name, file=file), stored, canon


def options(rng):
    return {
        "threads": rng.choice([0, 1, 2, 4, None]),
        "output_dtype": rng.choice(OUT_DTYPES),
        "merge_dtype": rng.choice([torch.float64, torch.float32]),
        "omit_ema": rng.choice([True, False]),
        "total_buffer_size": rng.choice([0, 100, 2**20]),
    }


def run(ctx, tmp, node, kw):
    """output and the warnings"""
    to_file = ctx.rng.random() < 0.4
    path = tmp / "out.safetensors"
    bars = []

    def bar(*a, **k):
        bars.append(QuietBar(*a, **k))
        return bars[-1]
    with captured_logs() as logs:
        out = merge(node, tqdm=bar, **(kw | ({"output": path} if to_file else {})))
    if to_file:
        out, _ = read_safetensors(path)
    return out, logs, bars, to_file


def finite(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    p = rng.choice([0.0, 0.0, 0.1, 0.5])
    a, _, _ = model(ctx, tmp, p, name="one")
    b, _, _ = model(ctx, tmp, rng.choice([0.0, p]), name="two")
    kind = rng.choice(["plain", "sum", "difference", "ratio", "poison", "pick", "hidden"])
    if kind == "plain":
        node = a
    elif kind == "sum":
        node = sd_mecha.weighted_sum(a, b, alpha=rng.choice([0.0, 0.5, 1.0]))
    elif kind == "difference":
        node = b + (a - b)
    elif kind == "ratio":
        node = vm28_ratio(a, b)
    elif kind == "poison":
        node = vm28_poison(a, rng.choice([2, 3, 5]), rng.choice([math.nan, math.inf, -math.inf, 1e5]))
    elif kind == "pick":
        node = sd_mecha.pick_component(a, rng.choice(["main", "side", "ema"]))
    else:  # what is not finite does not reach the output
        node = sd_mecha.pick_component(vm28_poison(a, 1, math.nan), "side") | a
    kw = options(rng)
    check = rng.choice([True, True, True, False, ...])
    kw["check_finite"] = check
    out, logs, bars, to_file = run(ctx, tmp, node, kw)
    ctx.note(recipe=kind, options={k: str(v) for k, v in kw.items()}, to_file=to_file, messages=[r.getMessage()[:300] for r in logs][:10])
    relevant = [r for r in logs if not (to_file and "recipe" in r.getMessage())]
    count = mentions(relevant, lab.A.keys)
    for k in lab.A.keys:
        bad = k in out and not bool(out[k].to(torch.float64).isfinite().all())
        want = int(bad and check is not False)
        ctx.check(count[k] == want, f"{count[k]} warnings about {k!r}, which {'has' if bad else 'has no'} values that are not finite", expected=want)
        ctx.count("keys warned about" if want else "finite keys")
    ctx.check(len(relevant) == sum(count.values()), "there are other warnings")
    if not relevant:
        ctx.count("silent merges")
    ctx.seen("case", ("finite", kind, p, str(kw), to_file, tuple(k for k, n in count.items() if n)))


def progress(ctx):
    """every key is counted once, whether or not it has a value"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    p_missing = rng.choice([0, 0.3, 0.9])
    a, sa, ca = model(ctx, tmp, name="one", p_missing=p_missing, extra=rng.choice([0, 0, 3]))
    b, sb, cb = model(ctx, tmp, name="two", p_missing=p_missing, extra=rng.choice([0, 0, 2]))
    kw = options(rng)
    kw["omit_extra_keys"] = rng.choice([True, False])
    node = rng.choice([lambda: a, lambda: sd_mecha.weighted_sum(a, b, 0.5), lambda: a | b])()
    used = [sa] if node is a else [sa, sb]
    expected = set(lab.A.keys)
    if not kw["omit_extra_keys"]:
        expected |= {k for s in used for k in s if k.startswith("unknown.")}
    if kw["omit_ema"]:
        expected -= set(lab.A.components["ema"])
    real = rng.random() < 0.3
    announced, lock = [], threading.Lock()
    bars = []
    stream = io.StringIO()

    def bar(*args, **kwargs):
        if real:
            made = tqdm_module.tqdm(*args, **kwargs, file=stream)
        else:
            made = QuietBar(*args, **kwargs)
            original = made.set_postfix

            def set_postfix(postfix=None, **k):
                with lock:
                    announced.append((dict(postfix or {}) | k).get("key"))
                original()
            made.set_postfix = set_postfix
        bars.append(made)
        return made
    with captured_logs():
        merge(node, tqdm=bar, **kw)
    ctx.note(options={k: str(v) for k, v in kw.items()}, keys=len(expected), real=real)
    ctx.check(len(bars) == 1, f"{len(bars)} progress bars were made")
    n = bars[0].n if real else bars[0].updates
    ctx.check(bars[0].total == len(expected), f"the progress bar expects {bars[0].total} keys instead of {len(expected)}")
    ctx.check(n == len(expected), f"{n} of {len(expected)} keys were counted")
    if not real:
        ctx.check(bars[0].closed, "the progress bar is not closed")
        ctx.check(sorted(map(str, announced)) == sorted(expected), "the keys that were announced are not the keys of the merge", difference=sorted(set(map(str, announced)) ^ expected)[:5])
    ctx.count("progress")
    ctx.seen("case", ("progress", str(kw), p_missing, len(expected), real))


def extra_keys(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(1, 3)
    names, stored, nodes, files = [f"model{i}q" for i in range(n)], [], [], []
    for name in names:
        node, s, _ = model(ctx, tmp, name=name, extra=rng.choice([0, 0, 1, 3]), p_missing=rng.choice([0, 0.3]), file=rng.choice([True, True, False]))
        nodes.append(node)
        files.append(isinstance(node, ModelRecipeNode))
        stored.append(s)
    omit = rng.choice([True, True, False, ...])
    node = nodes[0]
    for other in nodes[1:]:
        node = rng.choice([lambda: sd_mecha.weighted_sum(node, other, 0.5), lambda: node | other, lambda: node + (other - nodes[0])])()
    kw = options(rng) | {"omit_extra_keys": omit, "check_finite": False}
    for _ in range(rng.choice([1, 1, 2])):  # every merge reports what it leaves out
        out, logs, _, to_file = run(ctx, tmp, node, kw)
    ctx.note(extra=[sorted(k for k in s if k.startswith("unknown")) for s in stored], omit=str(omit), messages=[r.getMessage()[:300] for r in logs][:10])
    for name, s, file in zip(names, stored, files):
        mine = [r for r in logs if (f"{name}.safetensors" if file else f"unknown.{name}.") in r.getMessage()]
        extra = {k for k in s if k.startswith("unknown.")}
        want = extra if omit is not False else set()
        said = {t for r in mine for t in re.findall(r"[\w.]+", r.getMessage()) if t.startswith("unknown.") or t in s}
        ctx.check(said == want, f"the warnings about {name} name {sorted(said)[:5]}, its unrecognized keys are {sorted(extra)}", expected=sorted(want))
        ctx.count("extra keys named", len(want))
    ctx.check(omit is False or not any(k.startswith("unknown.") for k in out), "an unrecognized key is in the output")
    if to_file and not all(files):
        logs = [r for r in logs if "could not be serialized" not in r.getMessage()]  # judged elsewhere
    others = [r for r in logs if not any((f"{name}.safetensors" if file else f"unknown.{name}.") in r.getMessage() for name, file in zip(names, files))]
    ctx.check(not others, "there are other warnings")
    if not logs:
        ctx.count("silent merges")
    ctx.seen("case", ("extra", str(kw), tuple(len(s) for s in stored), to_file))


def mandatory(ctx):
    """the error names the model and exactly the keys that it lacks"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    n = rng.randint(1, 3)
    names = [f"model{i}q" for i in range(n)]
    lacking = rng.choice([None, *names])
    nodes, missing = [], {}
    for name in names:
        stored, canon = lab.rand_state(rng, lab.A, dtype=torch.float32)
        gone = set()
        if name == lacking or rng.random() < 0.1:
            gone = set(rng.sample(sorted(lab.A.keys), rng.randint(1, 3)))
        kept = {}
        for k, t in stored.items():
            key = next(c for c in lab.A.keys if k in lab.A.names(c))
            if key not in gone:
                kept[k] = t
        missing[name] = {k for k in gone if not lab.A.keys[k].get("optional")}
        nodes.append(lab.as_model(rng, kept, tmp, rng.choice([lab.A.identifier, None]) if len(gone) < 4 else lab.A.identifier, name=name, file=True))
    node = nodes[0] if n == 1 else sd_mecha.n_average(*nodes)
    kw = options(rng) | {"check_mandatory_keys": True, "check_finite": False}
    bad = {n for n, m in missing.items() if m}
    ctx.note(missing={k: sorted(v) for k, v in missing.items()})
    try:
        run(ctx, tmp, node, kw)
    except RuntimeError as e:
        text = str(e)
        named = [n for n in names if f"{n}.safetensors" in text]
        ctx.check(len(named) == 1 and named[0] in bad, f"the error names {named}, the models that lack keys are {sorted(bad)}", error=text[:500])
        keys = {t for t in re.findall(r"[\w.]+", text) if any(t in lab.A.names(k) for k in lab.A.keys)}
        ctx.check(keys == missing[named[0]], f"the error names {sorted(keys)}", expected=sorted(missing[named[0]]), error=text[:500])
        ctx.count("mandatory errors")
    else:
        ctx.check(not bad, "a model that lacks keys was accepted")
        ctx.count("silent merges")
    ctx.seen("case", ("mandatory", n, tuple(sorted(missing[x]) and tuple(sorted(missing[x])) for x in names)))


def unserializable(ctx):
    """a file without recipe is announced, exactly when the recipe has tensors in memory"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    files = [model(ctx, tmp, name=f"m{i}", file=True)[0] for i in range(2)]
    kind = rng.choice(["files", "memory", "tensor", "nested", "dictionary", "numbers"])
    node = sd_mecha.weighted_sum(*files, alpha=0.5)
    if kind == "memory":
        node = sd_mecha.weighted_sum(node, model(ctx, tmp, file=False)[0], alpha=0.5)
    elif kind == "tensor":
        node = sd_mecha.weighted_sum(node, files[0], alpha=torch.tensor(0.5))
    elif kind == "nested":
        node = files[0] + (model(ctx, tmp, file=False)[0] - files[1])
    elif kind == "dictionary":
        node = sd_mecha.weighted_sum(node, files[0], alpha={k: torch.tensor(0.5) for k in lab.A.keys})
    elif kind == "numbers":
        node = sd_mecha.weighted_sum(node, files[0], alpha={k: 0.5 for k in lab.A.keys})
    has_tensors = kind in ("memory", "tensor", "nested", "dictionary")
    path = tmp / "out.safetensors"
    to_file = rng.random() < 0.8
    with captured_logs() as logs:
        merge(node, threads=rng.choice([0, 2]), check_finite=False, **({"output": path} if to_file else {}))
    about = [r for r in logs if "recipe" in r.getMessage()]
    ctx.note(recipe=kind, to_file=to_file, messages=[r.getMessage()[:200] for r in logs])
    ctx.check(bool(about) == (has_tensors and to_file), f"{len(about)} warnings about a recipe that is not saved")
    ctx.check(len(about) == len(logs), "there are other warnings")
    if to_file:
        _, meta = read_safetensors(path)
        embedded = any("mecha" in k for k in (meta or {}))
        ctx.check(embedded == (not has_tensors), f"the file has {'a' if embedded else 'no'} recipe")
    if has_tensors:
        ctx.count("unserializable")
    ctx.seen("case", ("unserializable", kind, to_file))


def names(ctx):
    """unknown names are refused, with a name that exists as suggestion"""
    rng = ctx.rng
    what = rng.choice(["method", "config", "space"])
    registry = {"method": merge_methods, "config": model_configs, "space": merge_spaces}[what]
    known = sorted(m.identifier for m in registry.get_all())
    base = rng.choice(known)
    wrong = rng.choice([lambda: base + "x", lambda: base[1:], lambda: base.upper(), lambda: base.replace("_", "-") + "_", lambda: "?", lambda: " " + base, lambda: "zzzzqq9"])()
    if wrong in known or what == "config" and wrong in ("structural", "infer"):
        raise Skip
    ctx.note(kind=what, name=wrong)
    try:
        got = registry.resolve(wrong)
    except ValueError as e:
        text = str(e)
        ctx.check(wrong in text, f"the error does not tell the unknown name {wrong!r}: {text[:300]}")
        if what != "space":
            ctx.check(any(k in text for k in known), f"the error suggests no existing name: {text[:300]}")
    else:
        ctx.fail(f"the unknown {what} {wrong!r} was found as {got}")
    ctx.count("names refused")
    ctx.seen("case", (what, wrong))


SCENARIOS = [("finite", finite, 5), ("progress", progress, 2), ("extra_keys", extra_keys, 2), ("mandatory", mandatory, 2), ("unserializable", unserializable, 2), ("names", names, 1)]
DIRECTED = []
