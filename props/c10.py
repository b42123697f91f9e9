"""Recipes survive serialization: the text describes the same recipe again."""
import math
import os
import pathlib
import random
import struct
import subprocess
import sys
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict
from sd_mecha.recipe_nodes import LiteralRecipeNode, ModelRecipeNode, MergeRecipeNode
from torch import Tensor
from mon import lab, dag
from mon.util import merge, describe

ID = "C10"
RULE = ("random recipe graphs with every kind of literal (extreme ints and floats, non finite, booleans, None, strings with quotes, backslashes, '=', "
        "spaces, line breaks and non-ASCII characters, dictionaries, nested), model paths, configs and merge spaces are serialized, parsed (as a string, "
        "list of lines, file; with comments and blank lines) and compared node by node and by merging. Distinct by the text")
ASSUMPTIONS = ["dictionary keys have the characters of state dict keys (letters, digits, '.', '_', '-')", "recipes without in-memory tensors"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 400)}
REQUIRED = {"round trips": 1000, "merged round trips": 50, "literals compared": 2000, "malformed texts": 100, "locales": 1}

lab.register(lab.A, lab.B)


@merge_method
def vm_c10(
    x: Parameter(StateDict[Tensor]),
    i: Parameter(int) = 0,
    f: Parameter(float) = 0.0,
    s: Parameter(str) = "",
    b: Parameter(bool) = False,
    t: Parameter(Tensor) = 1.0,
    *,
    o: Parameter(int) = None,
    ks: Parameter(str) = "k",
    kf: Parameter(float) = 1e-30,
    **kwargs,
) -> Return(Tensor):
    return x[kwargs["key"]]


@merge_method
def vm_c10_var(*xs: Parameter(Tensor), note: Parameter(str) = "") -> Return(Tensor):
    return xs[0]


CHARS = list("abcXYZ019 .,;:-_=+*/\\\"'`#&|<>()[]{}!?@%^~$\t") + ["\n", "\r", "é", "漢", "\u2028", "null", "true", "&0", "\\n", "version "]


@merge_method
def vm_c10_note(a: Parameter(Tensor), note: Parameter(str) = "") -> Return(Tensor):
    return a


def rand_str(rng):
    special = ["", " ", "null", "NULL", "true", "True", "&0", "1", "1.5", "1.50", "a=b", "A=b", "A", '"', '\\', "\\\\", 'a"b', "#x", "dict", "\n", "a\nb", "a\r\nb", "  a  ", "x=", "=x", "inf"]
    return rng.choice(special) if rng.random() < 0.4 else "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 12)))


def rand_float(rng):
    kind = rng.random()
    if kind < 0.3:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e-300, 5e-324, 1e300, 1.7976931348623157e308, 1e16, 1e22, 123456789.123456789, -1e-7, 1e-5, 2.0**53, math.inf, -math.inf, math.nan])
    if kind < 0.6:
        return rng.uniform(-10, 10)
    x = struct.unpack("<d", rng.randbytes(8))[0]
    return x if not math.isnan(x) else 0.5


def rand_int(rng):
    return rng.choice([0, 1, -1, 2**31, -2**63, 10**30, rng.randint(-1000, 1000), rng.getrandbits(62)])


def rand_literal(rng, kinds="ifsbnd"):
    k = rng.choice(kinds)
    if k == "i":
        return rand_int(rng)
    if k == "f":
        return rand_float(rng)
    if k == "s":
        return rand_str(rng)
    if k == "b":
        return rng.random() < 0.5
    if k == "n":
        return None
    names = rng.sample(["a", "a.b", "model.x.0.weight", "K_1", "x-y", "IN00", "0", "1.5", "é", "null", "true", "config"], rng.randint(0, 4))
    kind = rng.choice(["num", "s", "b"])
    return {n: (rng.choice([rand_int, rand_float])(rng) if kind == "num" else rand_str(rng) if kind == "s" else rng.random() < 0.5) for n in names}


def compare(ctx, a, b, path="root", seen=None):
    """structural comparison, node by node"""
    seen = set() if seen is None else seen
    if (id(a), id(b)) in seen:
        return
    seen.add((id(a), id(b)))
    ctx.check(type(a) is type(b), f"{path}: {type(a).__name__} became {type(b).__name__}")
    ctx.check(a.merge_space.identifier == b.merge_space.identifier, f"{path}: merge space {a.merge_space.identifier} became {b.merge_space.identifier}")
    ctx.check(getattr(a.model_config, "identifier", None) == getattr(b.model_config, "identifier", None), f"{path}: config {a.model_config} became {b.model_config}")
    if isinstance(a, ModelRecipeNode):
        ctx.check(a.path == b.path, f"{path}: path {a.path!r} became {b.path!r}")
    elif isinstance(a, LiteralRecipeNode):
        compare_value(ctx, a.value, b.value, path, seen)
    else:
        ctx.check(a.merge_method is b.merge_method, f"{path}: method {a.merge_method} became {b.merge_method}")
        ctx.check(len(a.args) == len(b.args) and set(a.kwargs) == set(b.kwargs), f"{path}: the arguments of {a.merge_method} changed")
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            compare(ctx, x, y, f"{path}.{i}", seen)
        for k in a.kwargs:
            compare(ctx, a.kwargs[k], b.kwargs[k], f"{path}.{k}", seen)


def compare_value(ctx, a, b, path, seen):
    if isinstance(a, dict):
        ctx.check(isinstance(b, dict) and list(a) == list(b), f"{path}: dictionary {list(a)} became {list(b) if isinstance(b, dict) else b!r}")
        for k in a:
            if isinstance(a[k], sd_mecha.recipe_nodes.RecipeNode):
                compare(ctx, a[k], b[k], f"{path}[{k}]", seen)
            else:
                compare_value(ctx, a[k], b[k], f"{path}[{k}]", seen)
        return
    ctx.check(type(a) is type(b), f"{path}: literal {a!r} became {b!r}")
    ok = struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b)) if isinstance(a, float) else a == b
    ctx.check(ok, f"{path}: literal {a!r} became {b!r}")
    ctx.count("literals compared")


def model_node(rng):
    path = rng.choice(["m.safetensors", "M.safetensors", "m.Safetensors", "m .safetensors", "dir/m.safetensors", "dir\u200b/m.safetensors", "/abs/m.safetensors", "sp ace.safetensors", "q\"uote.safetensors", "eq=ual.safetensors", "back\\slash.safetensors",
                       "hash#.safetensors", "&0.safetensors", "ünï.safetensors", "null"])
    return sd_mecha.model(path, config=rng.choice([None, lab.A.identifier, lab.A.identifier]), merge_space=rng.choice(["weight", "weight", "delta"]))


def graph(rng, depth, space="weight"):
    if depth == 0 or rng.random() < 0.15:
        for _ in range(50):
            n = model_node(rng)
            if n.merge_space.identifier == space:
                return n
    kids = lambda n: [graph(rng, depth - 1, space) for _ in range(n)]
    op = rng.choice(["var", "c10", "c10", "pipe", "dictnodes", "ws", "cast", "diff"])
    try:
        if op == "var":
            return vm_c10_var(*kids(rng.randint(1, 4)), note=rand_str(rng))
        if op == "c10":
            args = [rand_int(rng), rand_float(rng), rand_str(rng), rng.random() < 0.5, rng.choice([rand_float(rng), rand_int(rng), True])]
            n = rng.randint(0, 5)
            kw = {k: v for k, v in {"o": rng.choice([None, rand_int(rng)]), "ks": rand_str(rng), "kf": rand_float(rng)}.items() if rng.random() < 0.6}
            for name, v in list(zip("ifsbt", args))[n:]:
                if rng.random() < 0.5:
                    kw[name] = v
            return vm_c10(kids(1)[0], *args[:n], **kw)
        if op == "pipe":
            a, b = kids(2)
            return a | b
        if op == "dictnodes":
            a, b = kids(2)
            if a.model_config is not b.model_config or a.merge_space != b.merge_space:
                b = a
            return sd_mecha.literal({"a.x": a, "a.y": b, "a.z": a}) | a
        if op == "ws":
            a, b = kids(2)
            alpha = rng.choice([rand_float(rng), rand_literal(rng, "d")])
            if isinstance(alpha, dict) and alpha and not all(isinstance(v, (int, float)) for v in alpha.values()):
                alpha = 0.5
            return sd_mecha.weighted_sum(a, b, alpha)
        if op == "cast":
            return kids(1)[0].to(dtype=rng.choice([torch.float16, "bfloat16", None]), device=rng.choice([None, "cpu"]))
        a, b = graph(rng, depth - 1, "weight"), graph(rng, depth - 1, "weight")
        d = sd_mecha.subtract(a, b)
        return d if space == "delta" else sd_mecha.add_difference(a, d, alpha=rand_float(rng))
    except ValueError as e:
        if "incompatible input" in str(e) or "model configs" in str(e):
            return model_node_of(rng, space)
        raise


def model_node_of(rng, space):
    return sd_mecha.model("m.safetensors", config=lab.A.identifier, merge_space=space)


def parse_variants(ctx, text, tmp):
    rng = ctx.rng
    kind = rng.choice(["str", "list", "list_newlines", "comments", "crlf", "file", "trailing"])
    lines = text.split("\n")
    if kind == "str":
        return kind, sd_mecha.deserialize(text)
    if kind == "list":
        return kind, sd_mecha.deserialize(lines)
    if kind == "list_newlines":
        return kind, sd_mecha.deserialize([l + "\n" for l in lines])
    if kind == "comments":
        out = []
        for i, l in enumerate(lines):
            out.append(l)
            if rng.random() < 0.5:
                out.append(rng.choice(["", "# comment &0 \"", "   ", "  # x"]))
        return kind, sd_mecha.deserialize("\n".join(out))
    if kind == "crlf":
        return kind, sd_mecha.deserialize("\r\n".join(lines))
    if kind == "trailing":
        return kind, sd_mecha.deserialize(text + "\n\n")
    path = tmp / "r.mecha"
    path.write_text(text, encoding="utf-8", newline="\n")
    return kind, sd_mecha.deserialize_path(path)


def round_trip(ctx):
    rng = ctx.rng
    node = graph(rng, rng.randint(0, 4), rng.choice(["weight", "weight", "delta"]))
    if rng.random() < 0.1:
        v = rand_literal(rng)
        node = sd_mecha.literal(v, config=rng.choice([None, lab.A.identifier]), merge_space=rng.choice([None, "weight", "delta", "param"]))
    tmp = ctx.tmpdir()
    text = sd_mecha.serialize(node)
    ctx.note(text=text)
    ctx.check(isinstance(text, str) and text.startswith("version "), "the serialized recipe has no version header", text=text)
    kind, back = parse_variants(ctx, text, tmp)
    compare(ctx, node, back)
    again = sd_mecha.serialize(back)
    ctx.check(again == text, f"the text changes when it is parsed ({kind}) and serialized again", text=text, again=again)
    if rng.random() < 0.3:
        path = tmp / "out.mecha"
        t2 = sd_mecha.serialize(node, output=rng.choice([str(path), path]))
        ctx.check(t2 == text and path.read_text(encoding="utf-8") == text, "serialize(output=...) saved another text")
        compare(ctx, node, sd_mecha.deserialize_path(path))
    ctx.count("round trips")
    ctx.seen("case", text)
    ctx.sample(text=text[:600])


def merged(ctx):
    """the parsed recipe gives the same model"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, p_missing=rng.choice([0, 0.2]), serializable=True, n_models=3)
    ref, node = gen.gen("weight", rng.randint(1, 3))
    text = sd_mecha.serialize(node)
    ctx.note(text=text)
    if rng.random() < 0.5:
        merge(node, threads=0)  # serializing after a merge makes no difference
        ctx.check(sd_mecha.serialize(node) == text, "the text of a recipe changed after it was merged", text=text)
    kind, back = parse_variants(ctx, text, tmp)
    compare(ctx, node, back)
    out = merge(back, output_dtype=torch.float64, threads=rng.choice([0, 2]), omit_ema=False)
    want = gen.expected(ref)
    ctx.check(set(out) == set(want), "the parsed recipe has other keys", text=text, missing=sorted(set(want) - set(out))[:4], extra=sorted(set(out) - set(want))[:4])
    for k in want:
        ctx.check(dag.numerically_equal(out[k], want[k]), f"the parsed recipe gives another value for {k!r}", text=text, expected=describe(want[k]), actual=describe(out[k]))
    ctx.count("merged round trips")
    ctx.seen("case", text)


def malformed(ctx):
    """texts that do not describe a recipe are rejected"""
    rng = ctx.rng
    text = sd_mecha.serialize(graph(rng, 2))
    lines = text.split("\n")
    kind = rng.choice(["version", "no_version", "forward", "negative", "command", "quote", "method", "kwarg", "number", "space", "config"])
    if rng.random() < 0.1:
        tmp = ctx.tmpdir()
        name = rng.choice(["r.txt", "r.safetensors", "r", "r.mecha.bak"])
        (tmp / name).write_text(text, encoding="utf-8")
        path = rng.choice([tmp / name, tmp / "missing.mecha"])
        ctx.note(path=path.name)
        try:
            res = sd_mecha.deserialize_path(path)
        except Exception as e:
            ctx.check(path.name in str(e), "the error about a recipe file does not name it", error=repr(e))
            ctx.count("malformed texts")
        else:
            ctx.fail(f"a file that is no recipe ({path.name}) was accepted", result=type(res).__name__)
        return
    n = len(lines) - 1
    extra = {
        "forward": f'merge "fallback" &{n + rng.randint(0, 5)} &0',
        "negative": 'merge "fallback" &-1 &0',
        "command": rng.choice(['modle "x"', 'import os', '&0', '"merge" "fallback" &0 &0']),
        "quote": rng.choice(['model "x', 'model x"', 'literal "']),
        "method": 'merge "no_such_method_at_all" &0',
        "kwarg": 'merge "weighted_sum" &0 &0 no_such_argument=1',
        "number": rng.choice(["literal 1.2.3", "literal abc", "literal 0x", "literal --1", "literal &x"]),
        "space": 'model "x" merge_space="no_such_space"',
        "config": 'model "x" model_config="no_such-config"',
    }
    if kind == "version":
        lines[0] = rng.choice(["version 99.0", "version", "versio 0.1.0", "version 0.1.0.0", "version 0.1"])
    elif kind == "no_version":
        lines = lines[1:]
    else:
        lines.append(extra[kind])
    ctx.note(kind=kind, text="\n".join(lines))
    try:
        res = sd_mecha.deserialize("\n".join(lines))
    except Exception:
        ctx.count("malformed texts")
    else:
        ctx.fail(f"a malformed text ({kind}) was accepted", text="\n".join(lines)[-600:], result=type(res).__name__)
    ctx.seen("case", "\n".join(lines))


def tensors_rejected(ctx):
    """tensors cannot be represented: refuse rather than lose them"""
    rng = ctx.rng
    t = torch.ones(2)
    node = rng.choice([
        lambda: sd_mecha.model({"a": t}), lambda: sd_mecha.literal(t), lambda: sd_mecha.weighted_sum(sd_mecha.model("x.safetensors"), sd_mecha.model("y.safetensors"), t),
        lambda: sd_mecha.model("x.safetensors") | sd_mecha.model({"a": t}), lambda: sd_mecha.weighted_sum(sd_mecha.model("x.safetensors"), sd_mecha.model("y.safetensors"), {"a": t}),
        lambda: sd_mecha.model(os.fsdecode(b"caf\xe9.safetensors")), lambda: vm_c10_note(sd_mecha.model("x.safetensors"), note="a\udc80"),
    ])()
    path = ctx.tmpdir() / "recipe.mecha"
    old = rng.random() < 0.5
    if old:
        path.write_text("version 0.1.0\nmodel \"old.safetensors\"\n")
    try:
        text = sd_mecha.serialize(node, output=rng.choice([None, path, str(path)]))
    except TypeError:
        ctx.check(path.exists() == old and (not old or "old.safetensors" in path.read_text()), "a recipe that cannot be serialized damaged the file")
        ctx.count("unserializable recipes refused")
        return
    ctx.fail("a recipe that holds tensors was serialized", text=text)


OTHER_LOCALE = """
import sys, pathlib
sys.path.insert(0, sys.argv[1])
import sd_mecha
name = "mod\\u00e8le \\u65e5\\u672c.safetensors"
node = sd_mecha.deserialize_path(pathlib.Path("theirs.mecha"))
assert str(node.path) == name, ascii(str(node.path))
sd_mecha.serialize(sd_mecha.model(name), output=pathlib.Path("ours.mecha"))
"""


def locales(ctx):
    """recipe files can be exchanged with machines that have another locale"""
    tmp, name = ctx.tmpdir(), "mod\u00e8le \u65e5\u672c.safetensors"
    text = sd_mecha.serialize(sd_mecha.model(name), output=tmp / "theirs.mecha")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG"))} | {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
    repo = pathlib.Path(sd_mecha.__file__).parent.parent
    res = subprocess.run([sys.executable, "-W", "ignore", "-c", OTHER_LOCALE, str(repo)], cwd=tmp, env=env, capture_output=True, text=True, timeout=200)
    ctx.check(res.returncode == 0, "a recipe with a name that is not ASCII cannot be read or written in another locale", stderr=res.stderr[-1500:])
    node = sd_mecha.deserialize_path(tmp / "ours.mecha")
    ctx.check(str(node.path) == name, f"read {str(node.path)!r} from a recipe that was written in another locale")
    ctx.check((tmp / "ours.mecha").read_bytes() == (tmp / "theirs.mecha").read_bytes(), "the file of a recipe depends on the locale", text=text)
    ctx.count("locales")


DIRECTED = [("locales", locales)]
SCENARIOS = [("round_trip", round_trip, 8), ("merged", merged, 2), ("malformed", malformed, 2), ("tensors_rejected", tensors_rejected, 1)]
