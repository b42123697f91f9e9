"""Model files are read through the one registered format that matches them."""
import collections
import json
import os
import pathlib
import threading
import torch
import sd_mecha
from sd_mecha.extensions import model_formats
from sd_mecha.extensions.model_formats import register_model_format
from sd_mecha.streaming import TensorMetadata
from mon import lab
from mon.util import merge, expect_same, read_safetensors, write_safetensors

ID = "C35"
RULE = ("formats that are registered by the check (single files, directories, names that two formats match, a format that fails) hold tensors in their own encoding; random recipes mix them with safetensors files and dictionaries, "
        "by relative and absolute names, links, and shared paths, in merges, conversions and recipes parsed from text. Monitors record every reader that a format made, every read and every close; the tensors tell what was read. "
        "Declarations of formats are random: new and taken identifiers, classes and other objects. Distinct by the formats, order and outcome of a case")
ASSUMPTIONS = ["a format's reader has the interface of the built-in one: a mapping with metadata() and close()"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"models read": 600, "refused": 100, "declarations": 120, "failed opens": 60, "readers closed": 500, "conversions": 30}

lab.register(lab.A, lab.B)
LOCK = threading.Lock()
READERS = []
FAIL = {}


class Reader(collections.abc.Mapping):
    def __init__(self, fmt, path, buffer_size, tensors):
        self.fmt, self.path, self.buffer_size, self.tensors = fmt, path, buffer_size, tensors
        self.reads, self.closed, self.late = collections.Counter(), 0, 0
        with LOCK:
            READERS.append(self)

    def _use(self):
        if self.closed:
            self.late += 1
            raise RuntimeError("the reader is closed")

    def __getitem__(self, key):
        self._use()
        if key not in self.tensors:
            raise KeyError(key)
        with LOCK:
            self.reads[key] += 1
        return self.tensors[key].clone()

    def __iter__(self):
        self._use()
        return iter(list(self.tensors))

    def __len__(self):
        self._use()
        return len(self.tensors)

    def metadata(self):
        self._use()
        for k, v in self.tensors.items():
            yield k, TensorMetadata(v.shape, v.dtype)

    def close(self):
        self.closed += 1


class Format:
    def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
        raise AssertionError("outputs are always safetensors files")

    def get_read_dict(self, path, buffer_size):
        if self.identifier in FAIL:
            raise FAIL[self.identifier]
        return Reader(self.identifier, path, buffer_size, self.load(path))


def encode(tensors):
    return json.dumps({k: v.tolist() for k, v in tensors.items()})


def decode(text):
    return {k: torch.tensor(v, dtype=torch.float32) for k, v in json.loads(text).items()}


@register_model_format(identifier="vm35_json")
class JsonFormat(Format):
    def matches(self, path):
        return path.suffix == ".vm35"

    def load(self, path):
        return decode(path.read_text())


@register_model_format
class Vm35Directory(Format):
    """a folder, with one file per tensor"""
    def matches(self, path):
        return path.is_dir() and (path / "index.vm35d").exists()

    def load(self, path):
        return decode("{" + ", ".join(f'"{p.name[:-5]}": {p.read_text()}' for p in sorted(path.iterdir()) if p.suffix == ".json") + "}")


class Prefix(Format):
    start = "left"

    def matches(self, path):
        return path.name.startswith("vm35_" + self.start) or path.name.startswith("vm35_both")

    def load(self, path):
        return {k: -v for k, v in decode(path.read_text()).items()}


class Left(Prefix):
    start = "left"


class Right(Prefix):
    start = "right"

    def load(self, path):
        return {k: 2 * v for k, v in decode(path.read_text()).items()}


model_formats.register_model_format(Left, identifier="vm35_left")
model_formats.register_model_format(Right, identifier="vm35_right")
KINDS = ["safetensors", "json", "directory", "left", "right"]
IDENTIFIERS = {"json": "vm35_json", "directory": "Vm35Directory", "left": "vm35_left", "right": "vm35_right"}


def store(tmp, kind, name, tensors):
    tmp.mkdir(parents=True, exist_ok=True)
    if kind == "safetensors":
        return write_safetensors(tmp / f"{name}.safetensors", tensors)
    if kind == "directory":
        d = tmp / f"{name}.dir"
        d.mkdir()
        (d / "index.vm35d").write_text("")
        for k, v in tensors.items():
            (d / f"{k}.json").write_text(json.dumps(v.tolist()))
        return d
    path = tmp / (f"{name}.vm35" if kind == "json" else f"vm35_{kind}_{name}")
    path.write_text(encode(tensors if kind == "json" else {k: -v for k, v in tensors.items()} if kind == "left" else {k: v / 2 for k, v in tensors.items()}))
    return path


def values(rng, keys):
    return {k: torch.tensor([float(rng.randint(-50, 50)) * 2 for _ in range(rng.randint(1, 4) if k in ("x", "y") else 3)]) for k in keys}


def settle(ctx, what, before):
    """every reader that was made is closed, and none was used afterwards"""
    made = READERS[before:]
    for r in made:
        ctx.check(r.closed > 0, f"{what}: the reader of {r.path.name} was not closed", format=r.fmt)
        ctx.check(not r.late, f"{what}: the reader of {r.path.name} was used after it was closed", format=r.fmt)
        ctx.check(isinstance(r.buffer_size, int) and r.buffer_size >= 0, f"{what}: the reader got a buffer size of {r.buffer_size!r}")
        ctx.count("readers closed")
    del READERS[before:]
    return made


def some_files(ctx, n):
    rng, tmp = ctx.rng, ctx.tmpdir()
    keys = rng.sample(["x", "y", "z", "u", "v", "w"], rng.randint(1, 5))
    shapes = values(rng, keys)
    files, all_dirs = [], [tmp / "one", tmp / "two"]
    for i in range(n):
        kind = rng.choice(KINDS)
        folder = rng.choice(all_dirs)
        tensors = {k: torch.tensor([float(rng.randint(-50, 50)) * 2 for _ in v]) for k, v in shapes.items()}
        # files of the same name in both folders
        name = f"m{rng.choice([0, 0, i])}"
        if any(folder.glob(f"*{name}*")):
            name = f"n{i}"
        path = store(folder, kind, name, tensors)
        if rng.random() < 0.2 and kind != "directory":
            # a link is matched by its own name, and read through it
            link = folder / f"{'vm35_' + kind + '_' if kind in ('left', 'right') else ''}link{i}{path.suffix}"
            link.symlink_to(path)
            if rng.random() < 0.5:
                # one file under two names
                files.append((kind, path, tensors))
            path = link
        files.append((kind, path, tensors))
    for d in all_dirs:
        d.mkdir(exist_ok=True)
    res = []
    for kind, path, tensors in files:
        given = path
        if rng.random() < 0.4 and (path.parent == all_dirs[0] or not os.path.lexists(all_dirs[0] / path.name)):
            given = path.relative_to(path.parent)
        res.append((kind, path, rng.choice([str, pathlib.Path])(given), tensors))
    return res, all_dirs, keys


def mixed(ctx):
    rng = ctx.rng
    files, dirs, keys = some_files(ctx, rng.randint(1, 4))
    uses = [rng.randrange(len(files)) for _ in range(rng.randint(0, 2))]
    order = [*range(len(files)), *uses]
    rng.shuffle(order)
    nodes = [sd_mecha.model(files[i][2]) for i in order]
    terms = [files[i][3] for i in order]
    if rng.random() < 0.3:
        terms.append(t := {k: torch.full_like(v, float(rng.randint(0, 9))) for k, v in files[0][3].items()})
        nodes.append(sd_mecha.model(t))
    recipe = sd_mecha.n_average(*nodes)
    if rng.random() < 0.3 and len(nodes) == len(order):
        recipe = sd_mecha.deserialize(sd_mecha.serialize(recipe))
    kinds = [files[i][0] for i in order]
    ctx.note(kinds=kinds, paths=[str(files[i][2]) for i in order])
    before = len(READERS)
    path = ctx.tmpdir() / "out.safetensors"
    to_file = rng.random() < 0.4
    out = merge(recipe, model_dirs=dirs, merge_dtype=torch.float64, output_dtype=torch.float64, threads=rng.choice([0, 2, 4]), total_buffer_size=rng.choice([0, 100, 2**18]), **({"output": path} if to_file else {}))
    if to_file:
        out, _ = read_safetensors(path)
    made = settle(ctx, "merge", before)
    want = {k: sum(t[k].double() for t in terms) / len(terms) for k in keys}
    ctx.check(set(out) == set(want), "the output has other keys than the models", expected=sorted(want), observed=sorted(out))
    for k, v in want.items():
        ctx.check(out[k].shape == v.shape and bool(torch.allclose(out[k], v, rtol=0, atol=1e-9)), f"wrong value for {k!r}", expected=v.tolist(), observed=out[k].tolist(), kinds=kinds)
    # each file was opened once, by its own format
    opened = collections.Counter((r.fmt, r.path.resolve()) for r in made)
    expected = {(IDENTIFIERS[files[i][0]], files[i][1].resolve()) for i in order if files[i][0] in IDENTIFIERS}
    ctx.check(set(opened) == expected, "formats read other files than those of the recipe", expected=[(f, p.name) for f, p in sorted(expected)], observed=[(f, p.name) for f, p in sorted(opened)])
    for (f, p), times in opened.items():
        ctx.check(times == 1, f"{p.name} was opened {times} times in one merge", format=f)
    ctx.count("models read", len(order))
    ctx.seen("case", (tuple(kinds), to_file, len(nodes)))
    ctx.sample(kinds=kinds)


def refused(ctx):
    """no format, or more than one"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    good = store(tmp, rng.choice(KINDS), "good", t := values(rng, ["x"]))
    kind = rng.choice(["none", "both", "folder", "suffix"])
    bad = {"none": tmp / "model.vm35x", "both": tmp / "vm35_both", "folder": tmp / "folder", "suffix": tmp / "m.safetensors.bak"}[kind]
    bad.mkdir() if kind == "folder" else bad.write_text(encode(t))
    names = ["vm35_left", "vm35_right"]
    if kind == "both" and rng.random() < 0.7:
        # three of them, or the built-in one and another
        target, names = rng.choice([("vm35_both.vm35", names + ["vm35_json"]), ("vm35_both.safetensors", names + ["single_file"]), ("vm35_left.safetensors", ["vm35_left", "single_file"]), ("vm35_right.vm35", ["vm35_right", "vm35_json"])])
        bad = bad.rename(tmp / target)
    nodes = [sd_mecha.model(good), sd_mecha.model(rng.choice([str(bad), bad]))]
    rng.shuffle(nodes)
    out = tmp / "out.safetensors"
    out.write_bytes(b"before")
    before = len(READERS)
    ctx.note(kind=kind)
    use = rng.choice(["merge", "open", "convert"])
    try:
        if use == "merge":
            merge(sd_mecha.n_average(*nodes), output=out)
        elif use == "open":
            with sd_mecha.open_input_dicts(sd_mecha.n_average(*nodes)):
                pass
        else:
            sd_mecha.convert(sd_mecha.n_average(*nodes), lab.A.identifier)
    except Exception as e:
        text = str(e)
        ctx.check(bad.name in text, f"the error about a model of {kind} format does not name it", error=repr(e))
        if kind == "both":
            ctx.check(all(n in text for n in names), "the error does not name the formats that match", error=repr(e), formats=names)
    else:
        ctx.fail(f"a model that {'several formats match' if kind == 'both' else 'no format matches'} was accepted by {use}", path=bad.name)
    settle(ctx, "a refused model", before)
    ctx.check(out.read_bytes() == b"before", "the output was touched")
    ctx.count("refused")
    ctx.seen("case", ("refused", kind, use))


def failing(ctx):
    """a format that cannot open its file"""
    rng = ctx.rng
    files, dirs, keys = some_files(ctx, rng.randint(1, 3))
    tmp = ctx.tmpdir()
    kind = rng.choice(sorted(IDENTIFIERS))
    error = rng.choice([ValueError, RuntimeError, OSError, KeyError])("vm35 cannot open this")
    bad = store(tmp / "bad", kind, "bad", files[0][3])
    nodes = [sd_mecha.model(f[2]) for f in files if f[0] != kind] + [sd_mecha.model(bad)]
    rng.shuffle(nodes)
    before = len(READERS)
    FAIL[IDENTIFIERS[kind]] = error
    try:
        merge(sd_mecha.n_average(*nodes), model_dirs=dirs)
    except Exception as e:
        seen = e
        while seen is not error and (seen.__cause__ or seen.__context__):
            seen = seen.__cause__ or seen.__context__
        ctx.check(seen is error, "another error than that of the format was raised", expected=repr(error), observed=repr(e))
    else:
        ctx.fail("a merge succeeded though a format could not open its file", kind=kind)
    finally:
        FAIL.clear()
    settle(ctx, "a failed open", before)
    # and works as soon as the format does
    out = merge(sd_mecha.model(bad), output_dtype=torch.float64)
    expect_same(ctx, {k: v.double() for k, v in files[0][3].items()}, out, "after a failed open")
    settle(ctx, "merge", before)
    ctx.count("failed opens")
    ctx.seen("case", ("failing", kind, type(error).__name__, len(nodes)))


def conversion(ctx):
    """the config of a model is found in what its format reads"""
    rng, tmp = ctx.rng, ctx.tmpdir()
    kind = rng.choice(sorted(IDENTIFIERS))
    spec = rng.choice([lab.A, lab.B])
    keys = [k for k in spec.keys if "main" in k][:6]
    tensors = {k: torch.ones(tuple(spec.keys[k].shape if hasattr(spec.keys[k], "shape") else (3,))) for k in keys}
    path = store(tmp, kind, "m", tensors)
    before = len(READERS)
    with sd_mecha.open_input_dicts(node := sd_mecha.model(path)) as opened:
        ctx.check(node.model_config.identifier == spec.identifier, f"the config of a {kind} model was taken for {node.model_config.identifier}")
        ctx.check(len(READERS) == before + 1 and not READERS[-1].closed, "the reader is not open")
    settle(ctx, "open_input_dicts", before)
    res = sd_mecha.convert(sd_mecha.model(path), spec.identifier)
    ctx.check(res.model_config in (None, spec.identifier) or getattr(res.model_config, "identifier", None) == spec.identifier, "convert to the model's own config gave another one")
    settle(ctx, "convert", before)
    ctx.count("conversions")
    ctx.seen("case", ("conversion", kind, spec.identifier))


NEW = [0]


def declare(ctx):
    """identifiers of formats are unique"""
    rng = ctx.rng
    known = {f.identifier: f for f in model_formats.get_all()}
    kind = rng.choice(["taken", "taken", "taken_name", "object", "unknown", "resolve"] + ["new"] * (NEW[0] < 20))
    ctx.note(kind=kind, known=sorted(known))

    class Nothing(Format):
        def matches(self, path):
            return False

    how = rng.choice([lambda c, **kw: register_model_format(c, **kw), lambda c, **kw: register_model_format(**kw)(c)])
    if kind == "new":
        NEW[0] += 1
        Nothing.__name__ = f"Vm35New{NEW[0]}"
        identifier = rng.choice([None, f"vm35 new {NEW[0]}"])
        how(Nothing, identifier=identifier)
        name = identifier or Nothing.__name__
        made = model_formats.resolve(name)
        ctx.check(isinstance(made, Nothing) and made.identifier == name, "a format is not found under its identifier", identifier=name)
        after = model_formats.get_all()
        ctx.check(made in after and {f.identifier for f in after} == {*known, name} and len(after) == len(known) + 1, "get_all() has not exactly one format more", observed=[f.identifier for f in after])
        ctx.count("declarations")
        return
    if kind == "resolve":
        for name, f in known.items():
            ctx.check(model_formats.resolve(name) is f, "resolve gives another format", identifier=name)
        ctx.check("single_file" in known, "the built-in format is gone")
        ctx.count("declarations")
        return
    try:
        if kind == "taken":
            how(Nothing, identifier=rng.choice(sorted(known)))
        elif kind == "taken_name":
            Nothing.__name__ = rng.choice(sorted(known))
            how(Nothing)
        elif kind == "object":
            how(rng.choice([Nothing(), "Nothing", 5, lambda path: True]), identifier="vm35 no class")
        else:
            name = rng.choice(["no_such_format", "vm35_jsom", "Single_File", ""])
            model_formats.resolve(name)
    except ValueError as e:
        if kind == "unknown" and name:
            ctx.check(name in str(e) and any(repr(k) in str(e) for k in known), "the error about an unknown format does not suggest an existing one", error=str(e))
    else:
        ctx.fail(f"a declaration ({kind}) was accepted")
    after = model_formats.get_all()
    ctx.check(len(after) == len(known) and all(known.get(f.identifier) is f for f in after), "a refused declaration changed the formats", observed=[f.identifier for f in after])
    ctx.count("declarations")
    ctx.seen("case", ("declare", kind, len(known)))


SCENARIOS = [("mixed", mixed, 6), ("refused", refused, 2), ("failing", failing, 2), ("conversion", conversion, 1), ("declare", declare, 3)]
