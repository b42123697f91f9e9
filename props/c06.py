"""Merging never changes its inputs, and recipes can be used again and again, in any history of operations."""
import contextlib
import hashlib
import pathlib
import torch
import sd_mecha
from mon import lab, dag
from mon.methods import ALL
from mon.util import merge, write_safetensors, rand_tensor, same, describe, digest, expect_same

ID = "C06"
RULE = ("every built-in method (and random graphs) is merged with the input dtype equal to the merge dtype, so that nothing is copied on the way; "
        "in-memory tensors, input dictionaries and input files are digested before and after. Histories interleave successful and failing merges, "
        "conversions and serializations over a shared pool of nodes and compare each result with a fresh computation. "
        "Distinct by (method, shapes, parameters) or by the history")
ASSUMPTIONS = ["user-defined merge methods do not modify their arguments in place"]
BUDGET = {"quick": (100000, 16), "thorough": (10**7, 600)}
REQUIRED = {"inputs verified": 2000, "builtin methods exercised": 25, "history steps": 200, "models taken for a config": 60}

lab.register(lab.A, lab.B)


def snapshot(dicts, paths):
    return (
        [{k: digest(v) for k, v in d.items()} for d in dicts],
        [hashlib.blake2b(pathlib.Path(p).read_bytes()).hexdigest() for p in paths],
    )


def verify(ctx, dicts, paths, before, what):
    after = snapshot(dicts, paths)
    for d0, d1 in zip(before[0], after[0]):
        ctx.check(list(d0) == list(d1), f"{what}: the keys of an input dictionary changed", before=list(d0), after=list(d1))
        for k in d0:
            ctx.check(d0[k] == d1[k], f"{what}: the input tensor {k!r} was modified")
            ctx.count("inputs verified")
    ctx.check(before[1] == after[1], f"{what}: an input file was modified")


def methods(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    name, method = rng.choice(ALL)
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    shape = rng.choice([(), (5,), (4, 6), (6, 4), (4, 3, 3, 3), (3, 4, 1, 1)])
    params, recipe_fn, n, spaces = method(rng)
    dicts, nodes, paths = [], [], []
    keys = [f"zz.k{i}" for i in range(3)]
    for j in range(n):
        d = {k: rand_tensor(rng, shape, dtype, ints=False) for k in keys}
        if j and rng.random() < 0.15:
            d = {k: v.clone() for k, v in dicts[0].items()}
        dicts.append(d)
        nodes.append(sd_mecha.model(d, merge_space=spaces[j]))
    before = snapshot(dicts, paths)
    recipe = recipe_fn(*nodes)
    kw = {"merge_dtype": rng.choice([dtype, None, dtype]), "output_dtype": rng.choice([None, dtype]), "threads": rng.choice([0, 2]),
          "strict_weight_space": False, "check_finite": False}
    what = f"{name}({params}) on {dtype} {shape}"
    ctx.note(what=what)
    first = merge(recipe, **kw)
    verify(ctx, dicts, paths, before, what)
    first_copy = {k: v.clone() for k, v in first.items()}
    ctx.count(f"method {name}")
    ctx.seen("builtin methods exercised", name)
    again = merge(recipe, **kw)
    verify(ctx, dicts, paths, before, what + " (second merge)")
    if name not in RANDOM and not params.get("random"):
        for k in first_copy:
            ctx.check(torch.equal(first_copy[k].nan_to_num(nan=123.), again[k].nan_to_num(nan=123.)), f"{what}: merging the same recipe twice gives different values", key_=k,
                      first=describe(first_copy[k]), second=describe(again[k]))
    for k in first_copy:
        ctx.check(same(first_copy[k], first[k]), f"{what}: an earlier result changed during a later merge")
    ctx.seen("case", (name, str(params), str(shape), str(dtype)))
    ctx.sample(what=what)


RANDOM = {"dropout_unseeded", "copy_distribution", "truncate_rank", "rotate"}


def graphs(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, p_missing=rng.choice([0, 0.2]), dtype=torch.float64, file=None)
    ref, node = gen.gen("weight", rng.randint(1, 3))
    dicts = [s[3] for s in gen.sources]
    paths = sorted(tmp.glob("*.safetensors"))
    before = snapshot(dicts, paths)
    names_before = sorted(p.name for p in tmp.iterdir())
    kw = {"merge_dtype": rng.choice([torch.float64, None]), "output_dtype": rng.choice([None, torch.float64]), "threads": rng.choice([0, 1, 4]), "omit_ema": False}
    fallback = gen.gen("weight", 0)[1] if rng.random() < 0.3 else None
    out = merge(node, fallback_model=fallback, **kw)
    verify(ctx, dicts, paths, before, ref.text[:300])
    ctx.check(names_before == sorted(p.name for p in tmp.iterdir()), "files appeared next to the inputs")
    for k, v in gen.expected(ref).items():
        ctx.check(dag.numerically_equal(out[k], v), f"wrong value for {k!r}", recipe=ref.text[:500])
    ctx.seen("case", ref.text)


def history(ctx):
    """a pool of nodes used by a random sequence of operations; each merge must equal the reference whatever came before"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, p_missing=rng.choice([0, 0.2]), file=True, n_models=3)
    pool = [gen.gen("weight", rng.randint(0, 2)) for _ in range(4)]
    # structural models, without any config
    sdicts = [{f"zz.s{i}": rand_tensor(rng, (3,), torch.float64) for i in range(6) if rng.random() < 0.8 or i == 0} for _ in range(3)]
    snodes = [sd_mecha.model(d) if rng.random() < 0.4 else sd_mecha.model(write_safetensors(tmp / f"st{i}.safetensors", d)) for i, d in enumerate(sdicts)]
    dicts = [s[3] for s in gen.sources] + sdicts
    paths = sorted(tmp.glob("*.safetensors"))
    before = snapshot(dicts, paths)
    missing = sd_mecha.model(tmp / "does_not_exist.safetensors", config=lab.A.identifier)
    bad = tmp / "bad.safetensors"
    bad.write_bytes(b"\xff" * 4)
    texts = [sd_mecha.serialize(n) if not has_tensor(n) else None for _, n in pool]
    log = []
    for step in range(rng.randint(4, 10)):
        op = rng.choice(["merge", "merge", "merge_structural", "merge_structural", "fail_missing", "fail_bad", "fail_threads", "fail_space", "serialize", "combine", "convert", "extra", "mandatory"])
        i = rng.randrange(len(pool))
        ref, node = pool[i]
        log.append((op, i))
        ctx.note(history=log)
        kw = {"threads": rng.choice([0, 2]), "omit_ema": rng.choice([True, False]), "output_dtype": torch.float64, "total_buffer_size": rng.choice([0, 1000, 2**20])}
        if op in ("merge", "extra"):
            out = merge(node, **kw, **({"omit_extra_keys": False} if op == "extra" else {}))
            want = gen.expected(ref)
            if kw["omit_ema"]:
                for k in lab.A.components["ema"]:
                    want.pop(k, None)
            if op == "merge":
                ctx.check(set(want) == set(out), "a merge has other keys than expected after this history", history=log,
                          missing=sorted(set(want) - set(out))[:4], extra=sorted(set(out) - set(want))[:4])
            for k in want:
                ctx.check(dag.numerically_equal(out[k], want[k]), f"wrong value for {k!r} after this history", history=log, recipe=ref.text[:400])
        elif op == "merge_structural":
            chosen = rng.sample(range(3), rng.randint(1, 3))
            out = merge(sd_mecha.n_average(*[snodes[j] for j in chosen]), **kw)
            common = set.intersection(*[set(sdicts[j]) for j in chosen])
            ctx.check(set(out) == common, "a structural merge has other keys than the inputs have in common", history=log, chosen=chosen,
                      got=sorted(out), want=sorted(common))
            for k in common:
                want = torch.mean(torch.stack([sdicts[j][k] for j in chosen]), dim=0)
                ctx.check(torch.equal(out[k], want), f"wrong value for {k!r}", history=log)
        elif op == "fail_missing":
            expect_failure(ctx, lambda: merge(sd_mecha.weighted_sum(node, missing), **kw), log)
        elif op == "fail_bad":
            expect_failure(ctx, lambda: merge(sd_mecha.weighted_sum(node, bad if rng.random() < 0.5 else pathlib.Path(bad)), **kw), log)
        elif op == "fail_threads":
            expect_failure(ctx, lambda: merge(node, **(kw | {"threads": -1})), log)
        elif op == "fail_space":
            expect_failure(ctx, lambda: merge(node - node, **kw), log)
        elif op == "mandatory":
            with contextlib.suppress(RuntimeError):
                merge(node, check_mandatory_keys=True, **kw)
        elif op == "serialize":
            if texts[i] is not None:
                ctx.check(sd_mecha.serialize(node) == texts[i], "the serialized recipe changed after this history", history=log)
        elif op == "combine":
            j = rng.randrange(len(pool))
            other = pool[j]
            pool[i] = (dag.Ref(lambda key, a=ref, b=other[0]: a(key) + (b(key) - a(key)) * 0.5, f"ws({ref.text},{other[0].text})"), sd_mecha.weighted_sum(node, other[1], 0.5))
            texts[i] = sd_mecha.serialize(pool[i][1]) if texts[i] is not None and texts[j] is not None else None
        elif op == "convert":
            ctx.check(sd_mecha.convert(node, lab.A.identifier) is not None, "conversion to the same config failed", history=log)
        ctx.count("history steps")
    verify(ctx, dicts, paths, before, f"history {log}")
    ctx.seen("case", (log, [p[0].text for p in pool]))


TWINS = {c: lab.Spec(c, {"main": {f"{p}.t{i}": {"shape": (2,), "dtype": "float32", "optional": True} for i in range(10)}})
         for c, p in (("vmontwin-one", "tw"), ("vmontwin-two", "tw"), ("vmontwin-other", "to"))}
lab.register(*TWINS.values())
EXPECTING = {}
for c in TWINS:
    def vm06_expecting(x: sd_mecha.Parameter(torch.Tensor, model_config=c), **kwargs) -> sd_mecha.Return(torch.Tensor, model_config=c):
        return x * 2
    EXPECTING[c] = sd_mecha.merge_method(register=False)(vm06_expecting)


def configs(ctx):
    """models without a config are what each recipe takes them for, whatever they were taken for before"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    stated = rng.choice([None, None, "infer"])
    path = tmp / "m.safetensors"

    def state():
        prefix = rng.choice(["tw", "tw", "to"])
        return prefix, {f"{prefix}.t{i}": rand_tensor(rng, (2,), torch.float64) for i in sorted(rng.sample(range(10), rng.randint(4, 8)))}

    prefix, tensors = state()
    kw = {} if stated is None else {"config": stated}
    in_file = rng.random() < 0.6
    node = sd_mecha.model(write_safetensors(path, tensors) if in_file else tensors, **kw)
    text = sd_mecha.serialize(node) if in_file else None
    config = node.model_config
    log = []
    for step in range(rng.randint(3, 7)):
        op = rng.choice([*TWINS, *TWINS, "replace", "threads", "convert"])
        log.append(op)
        ctx.note(history=log, prefix=prefix, stated=stated, in_file=in_file)
        if op in TWINS:
            fits = next(iter(TWINS[op].keys)).startswith(prefix)
            recipe = EXPECTING[op](node)
            if fits:
                out = merge(recipe, threads=rng.choice([0, 2]), output_dtype=torch.float64)
                ctx.check(set(out) == set(tensors), "other keys than those of the model after this history", history=log, got=sorted(out), want=sorted(tensors))
                for k, v in tensors.items():
                    ctx.check(torch.equal(out[k], v * 2), f"wrong value for {k!r} after this history", history=log)
                ctx.count("models taken for a config")
            else:
                expect_failure(ctx, lambda: merge(recipe), log)
        elif op == "replace" and in_file:
            prefix, tensors = state()
            write_safetensors(path, tensors)
        elif op == "threads":
            expect_failure(ctx, lambda: merge(EXPECTING[rng.choice([*TWINS])](node), threads=-1), log)
        elif op == "convert" and prefix == "to":
            ctx.check(sd_mecha.convert(node, "vmontwin-other") is not None, "conversion to the same config failed", history=log)
        ctx.check(node.model_config is config, "the recipe has another config than before", history=log, before=str(config), after=str(node.model_config))
        if in_file:
            ctx.check(sd_mecha.serialize(node) == text, "the serialized recipe changed after this history", history=log)
        ctx.count("history steps")
    ctx.seen("case", (log, stated, in_file, sorted(tensors)))


def has_tensor(node):
    try:
        sd_mecha.serialize(node)
        return False
    except TypeError:
        return True


def expect_failure(ctx, fn, log):
    try:
        fn()
    except Exception:
        ctx.count("failing operations")
        return
    ctx.fail("an operation that cannot succeed did not fail", history=log)


SCENARIOS = [("methods", methods, 6), ("graphs", graphs, 2), ("history", history, 3), ("configs", configs, 2)]
