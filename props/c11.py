"""The recipe stored in an output file reproduces the file."""
import os
import pathlib
import torch
import sd_mecha
from mon import lab, dag
from mon.util import merge, read_safetensors, captured_logs, expect_same, write_safetensors
from .c10 import compare

ID = "C11"
RULE = ("random recipes over files (absolute paths, or relative ones found in model directories) are merged to a file with random options; the recipe is taken "
        "out of the file's metadata by an independent reader, compared node by node with the original, and merged again to another file with the same options: "
        "both files hold the same bytes, recipe included. Recipes that cannot be written as text leave no recipe behind. Distinct by recipe text and options")
ASSUMPTIONS = ["the same options are given again (they are not part of a recipe), fallback_model included", "input files are still there"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 400)}
REQUIRED = {"files reproduced": 150, "without a config": 40, "recipes that cannot be stored": 20}

lab.register(lab.A)


def reproduce(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, p_missing=rng.choice([0, 0.2]), serializable=True, n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 3))
    kw = {
        "threads": rng.choice([0, 1, 3]), "total_buffer_size": rng.choice([0, 64, 4096, 2**18]),
        "output_dtype": rng.choice([torch.float16, torch.float32, torch.bfloat16, torch.float64]),
        "merge_dtype": rng.choice([torch.float64, torch.float32]),
        "omit_ema": rng.random() < 0.5, "omit_extra_keys": rng.random() < 0.8,
    }
    text = sd_mecha.serialize(node)
    if rng.random() < 0.3:  # the same recipe over relative paths
        relative = text.replace(str(tmp) + "/", "")
        if relative != text:
            node = sd_mecha.deserialize(relative)
            text = relative
            kw["model_dirs"] = [tmp]
    if rng.random() < 0.25:
        _, kw["fallback_model"] = gen.gen("weight", 1)
    first = (tmp / "out" / "first.safetensors")
    first.parent.mkdir()
    ctx.note(text=text, options={k: str(v) for k, v in kw.items() if k != "fallback_model"})
    merge(node, output=rng.choice([str, lambda p: p])(first), **kw)
    tensors, meta = read_safetensors(first)
    ctx.check(bool(meta) and "mecha_recipe" in meta, "the output file holds no recipe", text=text, metadata=sorted(meta or {}))
    stored = meta["mecha_recipe"]
    ctx.check(stored == text, "the stored recipe differs from the text of the recipe", text=text, stored=stored)
    back = sd_mecha.deserialize(stored)
    compare(ctx, node, back)
    second = tmp / "out" / "second.safetensors"
    merge(back, output=second, **kw)
    again, meta2 = read_safetensors(second)
    expect_same(ctx, tensors, again, "merging the stored recipe", text=text)
    ctx.check(meta2 == meta, "the reproduced file stores another recipe", text=text, stored=meta2)
    if kw["threads"] == 0:
        ctx.check(first.read_bytes() == second.read_bytes(), "the reproduced file is laid out differently", text=text)
    ctx.count("files reproduced")
    ctx.seen("case", (text, str(kw["threads"]), str(kw["output_dtype"])))
    ctx.sample(stored=stored[:500], keys=len(tensors))


def chained(ctx):
    """an output file is an input of the next recipe; both recipes stay intact"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, serializable=True, n_models=2)
    _, n1 = gen.gen("weight", 2)
    p1, p2 = tmp / "one.safetensors", tmp / "two.safetensors"
    merge(n1, output=p1, threads=0, output_dtype=torch.float64, omit_ema=False)
    meta1 = read_safetensors(p1)[1]
    n2 = sd_mecha.weighted_sum(sd_mecha.model(p1, config=lab.A.identifier), gen.gen("weight", 1)[1], rng.choice([0.25, 0.5]))
    merge(n2, output=p2, threads=rng.choice([0, 2]), output_dtype=torch.float64)
    t2, meta2 = read_safetensors(p2)
    ctx.check(meta2.get("mecha_recipe") == sd_mecha.serialize(n2), "the second file does not store the second recipe")
    ctx.check(read_safetensors(p1)[1] == meta1 and meta1["mecha_recipe"] == sd_mecha.serialize(n1), "the first file does not store the first recipe")
    again = merge(sd_mecha.deserialize(meta2["mecha_recipe"]), threads=0, output_dtype=torch.float64)
    expect_same(ctx, t2, again, "merging the stored recipe of a chain")
    ctx.count("files reproduced")
    ctx.seen("case", ("chain", sd_mecha.serialize(n2)))


def undeclared(ctx):
    """inputs without a config: the stored recipe finds it again"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    structural = rng.random() < 0.6
    nodes = []
    for i in range(rng.randint(1, 3)):
        if structural:
            d = {f"qq.{j}": torch.tensor([float(rng.randint(-9, 9)) for _ in range(4)]) for j in range(5)}
        else:
            d, _ = lab.rand_state(rng, lab.A)
        path = write_safetensors(tmp / f"m{i}.safetensors", d)
        nodes.append(sd_mecha.model(path, config=None if structural or i == 0 or rng.random() < 0.5 else lab.A.identifier))
    node = nodes[0]
    for n in nodes[1:]:
        node = rng.choice([lambda: sd_mecha.weighted_sum(node, n, 0.25), lambda: sd_mecha.n_average(n, node), lambda: node | n, lambda: lab.vm_keywords(node, y=n, z=n),
                           lambda: sd_mecha.add_difference(node, sd_mecha.subtract(n, nodes[0]), alpha=0.5)])()
    if rng.random() < 0.3:
        node = sd_mecha.n_average(sd_mecha.literal({k: node for k in d if rng.random() < 0.8} or {next(iter(d)): node}) | node)
    kw = {"threads": rng.choice([0, 2]), "output_dtype": torch.float64, "omit_extra_keys": rng.random() < 0.8}
    before = sd_mecha.serialize(node)
    first, second = tmp / "first.safetensors", tmp / "second.safetensors"
    merge(node, output=first, **kw)
    ctx.check(sd_mecha.serialize(node) == before, "a merge changes the text of its recipe", before=before, after=sd_mecha.serialize(node))
    tensors, meta = read_safetensors(first)
    stored = (meta or {}).get("mecha_recipe")
    ctx.note(text=before, stored=stored)
    ctx.check(stored is not None, "the output file holds no recipe", text=before)
    merge(sd_mecha.deserialize(stored), output=second, **kw)
    again, meta2 = read_safetensors(second)
    expect_same(ctx, tensors, again, "merging the stored recipe of models without a config", stored=stored)
    # dictionaries may name a config that was found out the first time
    ctx.check(meta2 == meta or "dict " in stored and "mecha_recipe" in meta2, "the reproduced file stores another recipe", stored=stored, again=meta2)
    ctx.count("files reproduced")
    ctx.count("without a config")
    ctx.seen("case", ("undeclared", before))


def unserializable(ctx):
    """tensors have no text: the merge works, and no wrong recipe is stored"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, file=rng.choice([False, None]), n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 2))
    stored, _ = lab.rand_state(rng, lab.A)
    if rng.random() < 0.4:
        # a file name that is not valid unicode
        path = tmp / os.fsdecode(rng.choice([b"caf\xe9", b"\xff", b"\xed\xa0\x80", b"x\x80y"]) + b".safetensors")
        stored = write_safetensors(path, stored)
        node = sd_mecha.n_average(gen.gen("weight", rng.randint(0, 1))[1], sd_mecha.model(stored, config=lab.A.identifier))
        ctx.count("names that are not unicode")
    else:
        node = sd_mecha.n_average(node, sd_mecha.model(stored, config=lab.A.identifier))
    out = tmp / "out.safetensors"
    with captured_logs() as logs:
        merge(node, output=out, threads=rng.choice([0, 2]))
    tensors, meta = read_safetensors(out)
    ctx.check(not meta or "mecha_recipe" not in meta, "a recipe that cannot be written as text was stored", stored=(meta or {}).get("mecha_recipe"))
    ctx.check(any("recipe" in r.getMessage() for r in logs), "nothing tells that the recipe is not stored")
    ctx.check(set(tensors) == {k for k in lab.A.keys if k not in lab.A.components["ema"]}, "the file misses keys")
    ctx.count("recipes that cannot be stored")
    ctx.seen("case", ("tensors", ref.text))


SCENARIOS = [("reproduce", reproduce, 6), ("chained", chained, 1), ("undeclared", undeclared, 2), ("unserializable", unserializable, 1)]
