"""Model and output paths name the files they should; Defaults only fills in what a call leaves out."""
import contextlib
import os
import pathlib
import threading
import tracemalloc
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return
from torch import Tensor
from mon import lab
from mon.util import merge, QuietBar, captured_logs, expect_same, same, raw, read_safetensors, write_safetensors, digest

ID = "C27"
RULE = ("trees of directories hold same-named files with different tensors (present, absent, in several directories, in the working directory, behind symbolic links); models given by relative and "
        "absolute strings and paths are merged with lists of model directories, and the tensors tell which file was read; outputs are searched in every directory. Defaults objects with random options and "
        "calls with random options are compared with the plain call with the combined options by everything an option changes. Distinct by layout or options")
ASSUMPTIONS = ["the working directory does not change during a merge"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"files identified": 600, "outputs located": 200, "options compared": 600, "conversions compared": 30, "missing files": 40}

lab.register(lab.A, lab.B)
SPEC = lab.A
LOCK = threading.Lock()
SEEN = {}


@merge_method
def vm27_probe(x: Parameter(Tensor)) -> Return(Tensor):
    with LOCK:
        SEEN.setdefault("dtypes", set()).add(x.dtype)
        SEEN.setdefault("devices", set()).add(str(x.device))
        SEEN.setdefault("threads", set()).add(threading.get_ident())
    return x


@merge_method(is_conversion=True)
def vm27_convert(x: Parameter(sd_mecha.StateDict[Tensor], model_config=lab.A.identifier), **kwargs) -> Return(Tensor, model_config=lab.B.identifier):
    return x["a" + kwargs["key"][1:]]


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def tagged(number):
    return {"a.main.1.weight": torch.full((3,), float(number), dtype=torch.float32)}


def paths(ctx):
    """which file does a path name?"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    dirs = [tmp / d for d in ("one", "two", "two/three", "four", "cwd")]
    for d in dirs:
        d.mkdir(parents=True)
    names = ["m.safetensors", "sub/m.safetensors", "sp ace.safetensors", "ünï.safetensors", "two.parts.safetensors"]
    content, number = {}, 0
    for d in dirs:
        for n in names:
            if rng.random() < 0.5:
                number += 1
                path = d / n
                path.parent.mkdir(exist_ok=True)
                if rng.random() < 0.2:
                    blob = tmp / f"blob{number}{rng.choice(['', '.bin', '.safetensors'])}"
                    write_safetensors(blob, tagged(number))
                    path.symlink_to(blob)
                else:
                    write_safetensors(path, tagged(number))
                content[path] = number
    given = rng.sample(dirs, rng.randint(0, 4))
    wants, nodes = [], []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(names)
        kind = rng.choice(["relative", "relative", "relative", "absolute", "dotted", "up"])
        if kind == "relative":
            path = n
        elif kind == "absolute":
            path = str(rng.choice(dirs) / n)
        elif kind == "dotted":
            path = "./sub/../" + n
        else:
            path = "../one/" + n
        candidates = [pathlib.Path(path)] if kind == "absolute" else [d / path for d in [*given, tmp / "cwd"]]
        found = next((c for c in candidates if c.exists()), None)
        wants.append(None if found is None else content[pathlib.Path(os.path.normpath(found))])
        nodes.append(rng.choice([lambda: sd_mecha.model(path, config=SPEC.identifier), lambda: sd_mecha.model(pathlib.Path(path), config=SPEC.identifier),
                                 lambda: sd_mecha.model(path)])())
    form = rng.choice(["list", "tuple", "generator", "defaults", "defaults_str", "defaults_call"])
    ctx.note(given=[str(g.relative_to(tmp)) for g in given], paths=[str(n.path) for n in nodes], form=form, files=sorted(str(c.relative_to(tmp)) for c in content), expected=wants)
    options = {"output_dtype": None, "merge_dtype": None, "threads": 0}
    with inside(tmp / "cwd"):
        for node, want in zip(nodes, wants):
            named = [rng.choice([g, g, pathlib.Path(os.path.relpath(g))]) for g in given]  # directories may be relative too
            dirs_arg = {"list": list, "tuple": tuple, "generator": lambda x: (y for y in x)}.get(form, list)(named)
            try:
                if form == "defaults":
                    out = sd_mecha.Defaults(model_dirs=named, tqdm=QuietBar, total_buffer_size=4096).merge(node, **options)
                elif form == "defaults_str":
                    out = sd_mecha.Defaults(model_dirs=[rng.choice([str(g), os.path.relpath(g)]) for g in given], tqdm=QuietBar, total_buffer_size=4096).merge(node, **options)
                elif form == "defaults_call":
                    out = sd_mecha.Defaults(model_dirs=[tmp / "one"], tqdm=QuietBar, total_buffer_size=4096).merge(node, model_dirs=named, **options)
                else:
                    out = merge(node, model_dirs=dirs_arg, **options)
            except FileNotFoundError:
                ctx.check(want is None, f"the path {str(node.path)!r} is not found", expected=want)
                ctx.count("missing files")
                continue
            ctx.check(want is not None, f"the path {str(node.path)!r} names a file, although there is none", observed=describe(out))
            ctx.check(describe(out) == want, f"the path {str(node.path)!r} names another file", observed=describe(out), expected=want)
            ctx.count("files identified")
        if all(w is not None for w in wants) and len(nodes) > 1 and form in ("list", "tuple"):
            out = merge(sd_mecha.n_average(*nodes), model_dirs=given, **(options | {"merge_dtype": torch.float64}))
            ctx.check(abs(describe(out) - sum(wants) / len(wants)) < 1e-9, "files are mixed up in a recipe with several", observed=describe(out), expected=wants)
            ctx.count("files identified")
    ctx.seen("case", (form, [str(g.relative_to(tmp)) for g in given], [str(n.path.name) for n in nodes], wants))


def describe(out):
    (t,) = out.values()
    return float(t[0])


def bad_paths(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    real = tmp / "m.safetensors"
    write_safetensors(real, tagged(1))
    other = tmp / rng.choice(["m.ckpt", "m", "m.safetensors.bak", "m.pt"])
    other.write_bytes(real.read_bytes())
    node = sd_mecha.weighted_sum(sd_mecha.model(real), sd_mecha.model(other))
    try:
        merge(node)
    except Exception as e:
        ctx.check(other.name in str(e), f"the error does not name the unsupported file {other.name}", error=str(e))
    else:
        ctx.fail(f"the unsupported file {other.name} is read")
    missing = sd_mecha.model(tmp / "none.safetensors")
    try:
        merge(sd_mecha.weighted_sum(sd_mecha.model(real), missing))
    except FileNotFoundError:
        ctx.count("missing files")
    else:
        ctx.fail("a missing file goes unnoticed")
    if rng.random() < 0.5:  # a string is no path where a tensor is expected
        try:
            merge(sd_mecha.weighted_sum(sd_mecha.model(real), str(real)))
        except Exception:
            pass
        else:
            ctx.fail("a plain string is taken for a model")
        out = merge(sd_mecha.weighted_sum(real, real), output_dtype=None)
        ctx.check(describe(out) == 1, "a pathlib path as an argument is not read as a model")


def outputs(ctx):
    """where does an output go?"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    dirs = [tmp / d for d in ("one", "two", "cwd")]
    for d in dirs:
        (d / "sub").mkdir(parents=True)
    given = rng.sample(dirs, rng.randint(0, 3))
    relative = rng.random() < 0.4
    name = rng.choice(["out.safetensors", "sub/out.safetensors", "o ut.safetensors"])
    absolute = rng.random() < 0.3
    value = float(rng.randint(1, 100))
    where = (rng.choice(dirs) / name) if absolute else (given[0] / name if given else tmp / "cwd" / name)
    if rng.random() < 0.3:
        where.write_bytes(b"old content, longer than a header" * rng.randint(1, 50))
    output = rng.choice([str, pathlib.Path])(where if absolute else name)
    d = {"a.main.1.weight": torch.full((3,), value)}
    before = {p for p in tmp.rglob("*") if p.is_file()}
    kw = {"output": output, "output_dtype": None, "threads": rng.choice([0, 2])}
    with inside(tmp / "cwd"):
        named = [pathlib.Path(os.path.relpath(g)) if relative else g for g in given]
        if rng.random() < 0.5:
            res = merge(sd_mecha.model(d, config=SPEC.identifier), model_dirs=named, **kw)
        else:
            res = sd_mecha.Defaults(model_dirs=rng.choice([list, tuple, lambda x: [str(y) for y in x]])(named), tqdm=QuietBar, total_buffer_size=4096).merge(sd_mecha.model(d, config=SPEC.identifier), **kw)
    ctx.note(given=[str(g.relative_to(tmp)) for g in given], relative=relative, output=str(output))
    ctx.check(res is None, "a merge to a file returns something")
    new = {p for p in tmp.rglob("*") if p.is_file()} - before
    ctx.check(new <= {where} and where.exists(), "the output is somewhere else", expected=str(where), observed=[str(n) for n in new])
    tensors, _ = read_safetensors(where)
    ctx.check(describe(tensors) == value, "the output file holds something else", observed=describe(tensors), expected=value)
    ctx.count("outputs located")
    ctx.seen("case", ("out", [str(g.name) for g in given], name, absolute, relative))


class BarA(QuietBar):
    used = 0

    def __enter__(self):
        type(self).used += 1
        return self


class BarB(BarA):
    used = 0


CHOICES = {
    "merge_device": [None, "cpu", torch.device("cpu")],
    "merge_dtype": [None, torch.float64, torch.float32, torch.bfloat16],
    "output_device": [None, "cpu", "meta"],
    "output_dtype": [None, torch.float64, torch.float32, torch.float16, torch.bfloat16],
    "threads": [None, 0, 1, 2],
    "total_buffer_size": [0, 2**12, 2**23],
    "model_dirs": "dirs",
    "strict_weight_space": [True, False],
    "check_finite": [True, False],
    "omit_extra_keys": [True, False],
    "omit_ema": [True, False],
    "check_mandatory_keys": [True, False],
    "tqdm": [BarA, BarB],
}


def fingerprint(call, probe_memory):
    """everything the options of a merge can change"""
    SEEN.clear()
    BarA.used = BarB.used = 0
    res = {}
    if probe_memory:
        tracemalloc.start()
    with captured_logs() as logs:
        try:
            out = call()
        except Exception as e:
            res["error"] = (type(e).__name__, str(e))
        else:
            res["keys"] = sorted(out)
            res["tensors"] = {k: (str(v.dtype), str(v.device), tuple(v.shape), None if v.device.type == "meta" else digest(v)) for k, v in out.items()}
            res["dtypes"], res["devices"] = sorted(map(str, SEEN.get("dtypes", ()))), sorted(SEEN.get("devices", ()))
            res["own thread"] = SEEN.get("threads") == {threading.get_ident()}
            res["bars"] = (BarA.used, BarB.used)
    res["logs"] = sorted(r.getMessage() for r in logs if "non finite" in r.getMessage() or "extra keys" in r.getMessage())
    res["logs"] = ["".join(sorted(m)) for m in res["logs"]]  # sets are printed in any order
    if probe_memory:
        if "error" not in res:  # the buffer of a merge that fails may never be made
            res["peak"] = tracemalloc.get_traced_memory()[1] > 2**22
        tracemalloc.stop()
    return res


def defaults(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    dirs = [tmp / d for d in ("one", "two")]
    states = []
    for i, d in enumerate(dirs):
        d.mkdir()
        stored, _ = lab.rand_state(rng, SPEC, p_missing=rng.choice([0, 0, 0.2]), ints=False)
        if rng.random() < 0.5:
            stored["extra.key"] = torch.ones(2)
        if rng.random() < 0.3:
            k = rng.choice(list(stored))
            stored[k] = torch.full_like(stored[k], float("inf"))
        write_safetensors(d / "m.safetensors", stored)
        states.append(stored)
    space = rng.choice(["weight", "weight", "weight", "delta"])
    # half of the files are named relative to the model directories
    a = sd_mecha.model(rng.choice(["m.safetensors", str(dirs[0] / "m.safetensors")]), config=SPEC.identifier, merge_space=space)
    recipe = vm27_probe(a)
    pick = lambda p: {k: rng.choice(v if v != "dirs" else [[dirs[0]], [dirs[1]], [dirs[1], dirs[0]], (dirs[0],), []]) for k, v in CHOICES.items() if rng.random() < p}
    D, C = pick(rng.choice([0.2, 0.5, 1.0])), pick(rng.choice([0, 0.2, 0.5]))
    both = D | C
    if "tqdm" not in both:
        D["tqdm"] = both["tqdm"] = BarA
    if "total_buffer_size" not in both:
        D["total_buffer_size"] = both["total_buffer_size"] = 2**12
    extra = {}
    if rng.random() < 0.3:
        stored, _ = lab.rand_state(rng, SPEC)
        extra["fallback_model"] = sd_mecha.model(stored, config=SPEC.identifier, merge_space=space)
    if rng.random() < 0.3:
        extra["output"] = rng.choice([None, {}])
    probe_memory = rng.random() < 0.3
    ctx.note(defaults={k: str(v) for k, v in D.items()}, call={k: str(v) for k, v in C.items()}, extra=list(extra))
    call_kw = {k: (list(v) if k == "model_dirs" else v) for k, v in C.items()}
    via_kw = dict(D)
    if "model_dirs" in via_kw and len(via_kw["model_dirs"]) == 1 and rng.random() < 0.5:
        via_kw["model_dirs"] = rng.choice([str, lambda x: x])(via_kw["model_dirs"][0])
    elif "model_dirs" in via_kw and rng.random() < 0.5:
        via_kw["model_dirs"] = rng.choice([tuple, iter])(via_kw["model_dirs"])  # any iterable of directories
    obj = sd_mecha.Defaults(**via_kw)
    fresh = lambda: {k: ({} if v == {} and k == "output" else v) for k, v in extra.items()}
    with inside(tmp):
        one = lambda: fingerprint(lambda: obj.merge(recipe, **call_kw, **fresh()), probe_memory)
        two = lambda: fingerprint(lambda: sd_mecha.merge(recipe, **both, **fresh()), probe_memory)
        got, want = one(), two()
        if got.get("peak") != want.get("peak"):  # what a first call imports or caches is in its peak too
            got, want = one(), two()
        if rng.random() < 0.6:  # an earlier call leaves no trace in the object
            got2 = fingerprint(lambda: obj.merge(recipe, **fresh()), probe_memory)
            want2 = fingerprint(lambda: sd_mecha.merge(recipe, **D, **fresh()), probe_memory)
            compare(ctx, got2, want2, "Defaults.merge after another call")
    compare(ctx, got, want, "Defaults.merge")
    ctx.count("options compared", len(both))
    ctx.count("calls that failed", int("error" in want))
    ctx.seen("case", ("defaults", sorted((k, str(v)) for k, v in D.items()), sorted((k, str(v)) for k, v in C.items())))
    ctx.sample(defaults={k: str(v) for k, v in D.items()}, call={k: str(v) for k, v in C.items()}, error=want.get("error"))


def compare(ctx, got, want, what):
    for k in want:
        ctx.check(k in got and got[k] == want[k], f"{what} differs from merge() with the same options in {k}", expected=want[k], observed=got.get(k), error=got.get("error"))
    ctx.check(set(got) == set(want), f"{what} ends differently", observed=got.get("error"), expected=want.get("error"))


def convert(ctx):
    """Defaults.convert is convert with the model directories"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    dirs = [tmp / d for d in ("one", "two")]
    stored, canon = lab.rand_state(rng, lab.A, p_alias=0)
    for d in dirs:
        d.mkdir()
    write_safetensors(dirs[1] / "m.safetensors", stored)
    if rng.random() < 0.5:
        write_safetensors(dirs[0] / "m.safetensors", {"zzz": torch.ones(1)})  # another file of this name
    first = rng.choice([[dirs[1]], [dirs[1], dirs[0]]])
    node = sd_mecha.model("m.safetensors", config=rng.choice([None, lab.A.identifier]))
    target = rng.choice([lab.B.identifier, lab.B.identifier, sd_mecha.model({"b.main.1.weight": torch.ones(3)}, config=lab.B.identifier), sd_mecha.extensions.model_configs.resolve(lab.B.identifier)])
    if rng.random() < 0.3:  # a relative path as well
        write_safetensors(dirs[1] / "target.safetensors", {"b.main.1.weight": torch.ones(3)})
        target = sd_mecha.model("target.safetensors", config=rng.choice([None, lab.B.identifier]))
    style = rng.choice(["defaults", "call", "override", "function"])
    ctx.note(style=style, dirs=[d.name for d in first])
    if style == "defaults":
        obj = sd_mecha.Defaults(model_dirs=first if len(first) > 1 else rng.choice([first, first[0], str(first[0])]))
        recipe = obj.convert(node, target)
    elif style == "function":
        recipe = sd_mecha.convert(node, target, rng.choice([list, tuple, lambda x: (y for y in x), iter])(first))
    elif style == "call":
        obj = sd_mecha.Defaults()
        recipe = obj.convert(node, target, model_dirs=first)
    else:
        obj = sd_mecha.Defaults(model_dirs=[dirs[0]])
        recipe = obj.convert(node, target, model_dirs=first)
    ctx.check(recipe.model_config.identifier == lab.B.identifier, "Defaults.convert gives a recipe of another config")
    out = merge(recipe, model_dirs=first, output_dtype=None, merge_dtype=None, omit_ema=False)
    expect_same(ctx, {"b" + k[1:]: v for k, v in canon.items()}, out, "Defaults.convert")
    ctx.count("conversions compared")
    ctx.seen("case", ("convert", style, len(first)))


SCENARIOS = [("paths", paths, 5), ("bad_paths", bad_paths, 1), ("outputs", outputs, 2), ("defaults", defaults, 4), ("convert", convert, 1)]
