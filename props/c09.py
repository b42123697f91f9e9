"""A merge that is rejected before it starts leaves its output as it was."""
import os
import pathlib
import torch
import sd_mecha
from mon import lab, dag
from mon.util import merge, write_safetensors, rand_tensor

ID = "C09"
RULE = ("every kind of invalid request (bad thread count, wrong merge space, missing or unsupported or corrupt input, missing mandatory keys, "
        "incompatible or unknown configs, output being one of the inputs through any name) against an output that already exists: the file keeps its "
        "bytes, inode and modification time, no file appears, a given dictionary stays as it was. Distinct by (fault, output kind, recipe)")
ASSUMPTIONS = []
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"rejections": 300, "outputs that are inputs": 60}

NO_DEVICE = "cuda:0" if not torch.cuda.is_available() else "xpu:0"

lab.register(lab.A, lab.B)
FAULTS = ["threads", "space", "missing", "extension", "header", "mandatory", "config", "infer", "model_config_inferred", "same_file", "same_file", "same_file", "bad_type", "device", "dtype", "buffer"]


def fingerprint(path):
    st = os.stat(path)
    return path.read_bytes(), st.st_ino, st.st_mtime_ns, st.st_size


def bad_dict(rng, node):
    """a dictionary with one value of another kind"""
    kinds = [lambda: torch.ones(1), lambda: rng.choice([1, 0.5]), lambda: "x", lambda: node]
    good, bad = rng.sample(kinds, 2)
    items = [good() for _ in range(rng.randint(1, 5))]
    items.insert(rng.randrange(len(items) + 1), rng.choice([bad, bad, object, list])())
    return {f"a.{i}": v for i, v in enumerate(items)}


def rejected(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    spec = lab.A
    fault = rng.choice(FAULTS)
    gen = dag.Gen(rng, tmp, spec, file=rng.choice([True, None]), n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 2))
    stored, _ = lab.rand_state(rng, spec)
    kw = {"threads": rng.choice([0, 1, 4])}
    out_kind = rng.choice(["file", "file", "file", "dict"])
    out = tmp / "existing.safetensors"
    out.write_bytes(rng.randbytes(rng.randint(0, 5000)))
    model_dirs = []

    def with_bad(bad):
        return rng.choice([
            lambda: sd_mecha.n_average(node, bad),
            lambda: sd_mecha.weighted_sum(bad, node, alpha=0.5),
            lambda: node | bad,
            lambda: sd_mecha.n_average(node, bad | node),
        ])()

    if fault == "threads":
        kw["threads"] = rng.choice([-1, -100, 1.5, 2.0])
        recipe = node
    elif fault == "device":
        # devices that nothing here has
        kw[rng.choice(["merge_device", "output_device"])] = rng.choice(["nope", "cpu:x", NO_DEVICE, torch.device(NO_DEVICE)])
        recipe = node
    elif fault == "dtype":
        kw[rng.choice(["merge_dtype", "output_dtype"])] = rng.choice(["nope", "float31", torch.complex64, torch.quint8])
        recipe = node
    elif fault == "buffer":
        kw["total_buffer_size"] = rng.choice([-1, -2**20, "many", float("nan"), float("inf")])
        recipe = node
    elif fault == "space":
        recipe = node - node
    elif fault == "missing":
        recipe = with_bad(sd_mecha.model(rng.choice([tmp / "nope.safetensors", "relative_nope.safetensors"]), config=spec.identifier))
    elif fault == "extension":
        p = tmp / "x.ckpt"
        p.write_bytes(b"abc")
        recipe = with_bad(sd_mecha.model(p, config=spec.identifier))
    elif fault == "header":
        p = tmp / "bad.safetensors"
        p.write_bytes(rng.choice([b"", b"abc", b"\x05\0\0\0\0\0\0\0{]", b"\xff" * 30]))
        recipe = with_bad(sd_mecha.model(p, config=spec.identifier))
    elif fault == "mandatory":
        incomplete = {k: v for k, v in stored.items() if k not in spec.names("a.main.1.weight")}
        recipe = with_bad(sd_mecha.model(incomplete if rng.random() < 0.5 else write_safetensors(tmp / "inc.safetensors", incomplete), config=spec.identifier))
        kw["check_mandatory_keys"] = True
    elif fault in ("config", "bad_type"):
        recipe = None
    elif fault == "infer":
        recipe = with_bad(sd_mecha.model({f"qq.{i}": torch.ones(1) for i in range(4)}, config="infer"))
    elif fault == "model_config_inferred":
        other, _ = lab.rand_state(rng, lab.B)
        recipe = with_bad(sd_mecha.model(other if rng.random() < 0.5 else write_safetensors(tmp / "b.safetensors", other)))
    elif fault == "same_file":
        src = tmp / "src.safetensors"
        write_safetensors(src, stored)
        how = rng.choice(["same", "relative", "symlink", "hardlink", "dots", "model_dir", "symlink_dir"])
        out, given = src, src
        if how == "relative":
            given = pathlib.Path(os.path.relpath(src))
            if rng.random() < 0.5:
                out, given = given, src
        elif how == "symlink":
            given = tmp / "link.safetensors"
            given.symlink_to(src)
            if rng.random() < 0.5:
                out, given = given, src
        elif how == "hardlink":
            given = tmp / "hard.safetensors"
            os.link(src, given)
        elif how == "dots":
            (tmp / "sub").mkdir()
            given = tmp / "sub" / ".." / "src.safetensors"
        elif how == "model_dir":
            model_dirs = [tmp]
            given = pathlib.Path("src.safetensors")
            if rng.random() < 0.5:
                out, given = given, src
        elif how == "symlink_dir":
            (tmp / "ld").symlink_to(tmp)
            given = tmp / "ld" / "src.safetensors"
        src_node = sd_mecha.model(rng.choice([str, lambda p: p])(given), config=spec.identifier)
        recipe = rng.choice([
            lambda: src_node,
            lambda: with_bad(src_node),
            lambda: sd_mecha.literal({k: src_node for k in spec.keys}),
            lambda: node | sd_mecha.literal({k: src_node for k in spec.keys}),
            lambda: sd_mecha.weighted_sum(node, src_node, 0.0),
            lambda: lab.vm_keywords(node, y=src_node, z=node),
            lambda: sd_mecha.n_average(node, lab.vm_keywords(node, y=node, z=src_node)),
            lambda: sd_mecha.literal({k: src_node if i == len(spec.keys) - 1 else node for i, k in enumerate(spec.keys)}),
            lambda: sd_mecha.n_average(node, sd_mecha.n_average(node, sd_mecha.slerp(b=src_node, a=node, alpha=0.25))),
            lambda: node + (node - sd_mecha.literal({k: node if i % 2 else sd_mecha.weighted_sum(node, b=src_node) for i, k in enumerate(spec.keys)})),
        ])()
        if rng.random() < 0.2:
            recipe, kw["fallback_model"] = node, src_node
        out_kind = "file"
        fault = f"same_file:{how}"
    details = {"fault": fault, "recipe": ref.text[:300], "output": out_kind, "threads": kw["threads"]}
    ctx.note(**details)
    given_dict = {"old": torch.ones(2)}
    target = out if out_kind == "file" else given_dict
    watched = tmp / "src.safetensors" if fault.startswith("same_file") else out
    before = fingerprint(watched)
    names = sorted(str(p) for p in tmp.rglob("*"))
    cwd_names = sorted(os.listdir("."))
    rejected_with = None
    try:
        if fault == "config":
            other, _ = lab.rand_state(rng, lab.B)
            recipe = with_bad(sd_mecha.model(other, config=lab.B.identifier))
        elif fault == "bad_type":
            kw["strict_weight_space"] = rng.random() < 0.5
            recipe = rng.choice([lambda: object(), lambda: [node], lambda: {"a": object()}, lambda: {"a": torch.ones(1), "b": "x"}, lambda: bad_dict(rng, node)])()
        merge(recipe, output=str(target) if out_kind == "file" and rng.random() < 0.5 else target, model_dirs=model_dirs, **kw)
    except Exception as e:
        rejected_with = type(e).__name__
    ctx.check(rejected_with is not None, "an invalid merge was not rejected", **details)
    ctx.check(fingerprint(watched) == before, f"a rejected merge ({rejected_with}) changed its output file", **details)
    ctx.check(sorted(str(p) for p in tmp.rglob("*")) == names, f"a rejected merge ({rejected_with}) created or removed files", **details)
    ctx.check(sorted(os.listdir(".")) == cwd_names, f"a rejected merge ({rejected_with}) created files in the current directory", **details)
    ctx.check(list(given_dict) == ["old"], f"a rejected merge ({rejected_with}) wrote to the given dictionary", **details)
    ctx.count("rejections")
    if fault.startswith("same_file"):
        ctx.count("outputs that are inputs")
    ctx.seen("faults", fault)
    ctx.seen("case", (fault, out_kind, ref.text, kw["threads"]))
    ctx.sample(**details, error=rejected_with)


def accepted(ctx):
    """control: the same graphs are accepted when nothing is wrong, and replace the output"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    gen = dag.Gen(rng, tmp, lab.A, file=True, n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 2))
    out = tmp / "existing.safetensors"
    out.write_bytes(rng.randbytes(rng.randint(0, 5000)))
    merge(node, output=out, threads=rng.choice([0, 2]))
    from mon.util import read_safetensors
    tensors, _ = read_safetensors(out)
    want = {k for k in gen.expected(ref) if k not in lab.A.components["ema"]}
    ctx.check(set(tensors) == want, "a valid merge did not replace the existing output", recipe=ref.text[:300])
    ctx.count("valid merges")


SCENARIOS = [("rejected", rejected, 8), ("accepted", accepted, 1)]
