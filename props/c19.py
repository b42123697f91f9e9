"""Model configs keep their content through YAML, laziness and the registry."""
import ast
import collections
import io
import os
import pathlib
import re
import subprocess
import sys
import threading
import time
import torch
import yaml
import sd_mecha
from sd_mecha.extensions import model_configs
from sd_mecha.extensions.model_configs import KeyMetadata, ModelComponent
from mon import lab
from mon.util import merge

ID = "C19"
RULE = ("random configs (key names with YAML syntax, unknown shapes and dtypes, aliases, optional keys, empty components) and every registered config are written by to_yaml, parsed by "
        "an independent YAML reader and by from_yaml, and compared with their description, along with the views keys(), metadata(), aliases() and components(); configs loaded lazily from a file "
        "equal the ones loaded at once; sequences of registrations are replayed on a reference registry. Distinct by description")
ASSUMPTIONS = ["key names, aliases and component names are strings"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"round trips": 300, "keys compared": 5000, "registered configs": 10, "registry operations": 500, "lazy accesses": 300, "used in merges": 30, "lazy races": 80, "locales": 1}

DTYPES = ["float64", "float32", "float16", "bfloat16", "int64", "int32", "int8", "uint8", "bool", "float8_e4m3fn"]
CHARS = list("abcXYZ019._-/: #'\"{}[]&*!|>%@`,?~=\\") + ["\n", "é", "漢", "null", "true", "yes", "1e3", "0x1", "0o7", "2020-01-01", "<<", "\u2028", "\t"]
PLAIN = ["null", "true", "yes", "no", "on", "1", "1.5", "0x10", "2020-01-01", "~", "", " ", "a: b", "- a", "# c", "{}", "[]", "=", "<<", "1_000", "1:30", ".inf", "shape", "dtype", "keys", "identifier"]


def name(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice(PLAIN)
    if r < 0.7:
        return f"model.{rng.choice(['a', 'b'])}.{rng.randint(0, 99)}.{rng.choice(['weight', 'bias'])}"
    return "".join(rng.choice(CHARS) for _ in range(rng.randint(1, 10)))


def description(rng):
    """identifier, {component: {key: (shape, dtype, aliases, optional)}}"""
    ident = rng.choice(["vmon", "1.0", "2e5", "a.b+c_d", "null"]) + f"{rng.randrange(10**6)}-" + rng.choice(["x", "1", "1.5", "on", "a+b", "3_4"])
    used, comps = set(), {}

    def fresh():
        for _ in range(50):
            n = name(rng)
            if n not in used:
                used.add(n)
                return n
        used.add(n := f"k{len(used)}")
        return n
    for _ in range(rng.randint(0, 4)):
        c = {}
        for _ in range(rng.choice([0, 1, 2, 5, 9])):
            shape = None if rng.random() < 0.1 else [rng.randint(0, 2000) for _ in range(rng.randint(0, 4))]
            dtype = None if rng.random() < 0.1 else rng.choice(DTYPES)
            c[fresh()] = (shape, dtype, [fresh() for _ in range(rng.choice([0, 0, 1, 3]))], rng.random() < 0.3)
        comps[name(rng)] = c
    return ident, comps


def build(rng, ident, comps):
    """a config made by hand, in one of the ways the classes allow"""
    def meta(shape, dtype, aliases, optional):
        style = rng.random()
        if style < 0.5:
            return KeyMetadata(torch.Size(shape) if shape is not None else None, getattr(torch, dtype) if dtype else None, rng.choice([list, tuple])(aliases), optional)
        d = {"shape": shape, "dtype": dtype}
        if aliases or rng.random() < 0.3:
            d["aliases"] = list(aliases)
        if optional or rng.random() < 0.3:
            d["optional"] = optional
        return d if style < 0.75 else KeyMetadata(**d)
    make = lambda c: collections.OrderedDict((k, meta(*v)) for k, v in c.items())
    return model_configs.ModelConfigImpl(identifier=ident, components={n: rng.choice([make, lambda c: ModelComponent(make(c))])(c) for n, c in comps.items()})


def judge(ctx, config, ident, comps, what):
    """every view of a config agrees with its description"""
    ctx.check(config.identifier == ident, f"{what}: identifier {config.identifier!r}, not {ident!r}")
    ctx.check(config.get_architecture_identifier() == ident.split("-")[0] and config.get_implementation_identifier() == ident.split("-")[1], f"{what}: wrong parts of the identifier {ident!r}")
    ctx.check(list(config.components()) == list(comps), f"{what}: components {list(config.components())}, not {list(comps)}")
    everything = {}
    for n, c in comps.items():
        keys = config.components()[n].keys()
        ctx.check(list(keys) == list(c), f"{what}: the keys of component {n!r} changed", expected=list(c), observed=list(keys))
        judge_keys(ctx, keys, c, f"{what}, component {n!r}")
        ctx.check({k: tuple(v) for k, v in config.components()[n].aliases().items()} == {k: tuple(v[2]) for k, v in c.items()}, f"{what}: the aliases of component {n!r} changed")
        everything.update(c)
    for _ in range(2):  # cached the second time
        ctx.check(list(config.keys()) == list(everything), f"{what}: keys() changed", expected=list(everything), observed=list(config.keys()))
        judge_keys(ctx, config.keys(), everything, what)
        for k, v in config.metadata().items():
            want = everything[k]
            ctx.check(v.shape == (None if want[0] is None else torch.Size(want[0])) and v.dtype == (getattr(torch, want[1]) if want[1] else None), f"{what}: metadata of {k!r} is {v}", expected=want)
        ctx.check(list(config.metadata()) == list(everything), f"{what}: metadata() has other keys")
        aliases = {k: tuple(v) for k, v in config.aliases().items()}
        ctx.check(aliases == {k: tuple(v[2]) for k, v in everything.items()}, f"{what}: aliases() changed", observed=aliases)


def judge_keys(ctx, keys, want, what):
    for k, (shape, dtype, aliases, optional) in want.items():
        m = keys[k]
        got = (None if m.shape is None else list(m.shape), None if m.dtype is None else str(m.dtype).split(".")[1], list(m.aliases), bool(m.optional))
        ctx.check(got == (shape, dtype, list(aliases), optional), f"{what}: key {k!r} is {got}, not {(shape, dtype, aliases, optional)}")
        # usable as the shape of a tensor, not just a list of numbers
        ctx.check(shape is None or m.shape == torch.Size(shape), f"{what}: the shape of key {k!r} is a {type(m.shape).__name__}: {m.shape!r}", expected=shape)
        ctx.count("keys compared")


def judge_text(ctx, text, ident, comps, what):
    plain = yaml.load(text, Loader=yaml.SafeLoader)
    ctx.check(isinstance(plain, dict) and plain.get("identifier") == ident, f"{what}: the text holds another identifier", text=text[:500])
    got = plain.get("components")
    ctx.check(list(got) == list(comps), f"{what}: the text holds other components", text=text[:800], expected=list(comps))
    for n, c in comps.items():
        ctx.check(list(got[n]) == list(c), f"{what}: the text holds other keys in {n!r}", text=text[:800], expected=list(c))
        for k, (shape, dtype, aliases, optional) in c.items():
            v = got[n][k]
            ok = v.get("shape") == shape and v.get("dtype") == dtype and list(v.get("aliases", [])) == list(aliases) and bool(v.get("optional", False)) == optional
            ctx.check(ok and set(v) <= {"shape", "dtype", "aliases", "optional"}, f"{what}: the text holds {v} for {k!r}", expected=(shape, dtype, aliases, optional))


PROBE = {"a": [1, 2], "shape": [1], "b": {"shape": [3], "dtype": "x", "z": None}}
PLAIN_DUMP = yaml.safe_dump(PROBE)


def round_trip(ctx):
    rng = ctx.rng
    ident, comps = description(rng)
    config = build(rng, ident, comps)
    ctx.note(identifier=ident, components={n: {k: list(v) for k, v in c.items()} for n, c in comps.items()})
    judge(ctx, config, ident, comps, "a config")
    text = model_configs.to_yaml(config)
    ctx.note(text=text[:3000])
    judge_text(ctx, text, ident, comps, "to_yaml")
    back = model_configs.from_yaml(text)
    judge(ctx, back, ident, comps, "from_yaml(to_yaml())")
    ctx.check(model_configs.to_yaml(back) == text, "to_yaml(from_yaml(text)) is another text", text=text[:1000])
    ctx.check(yaml.safe_dump(PROBE) == PLAIN_DUMP, "to_yaml changes how yaml prints other data")
    path = ctx.tmpdir() / f"{ident}.yaml"
    path.write_text(text, encoding="utf-8")
    lazy_case(ctx, path, ident, comps)
    ctx.count("round trips")
    ctx.seen("case", text)
    ctx.sample(text=text[:400])


def lazy_case(ctx, path, ident, comps):
    """a lazy config gives the content of its file whichever access comes first, and reads it once"""
    rng = ctx.rng
    if rng.random() < 0.5:  # the same content, as a person would write it
        path.write_bytes(yaml.safe_dump(yaml.safe_load(path.read_bytes()), allow_unicode=True, sort_keys=False).encode("utf-8"))
    calls = []

    class Counting(model_configs.YamlModelConfig):
        def create_config(self):
            calls.append(1)
            return super().create_config()
    lazy = Counting(path)
    ctx.check(not calls, "a lazy config reads its file when it is made")
    accesses = ["keys", "metadata", "aliases", "components", "identifier", "get_architecture_identifier"]
    rng.shuffle(accesses)
    first = accesses[0]
    value = getattr(lazy, first)
    if callable(value):
        value()
    ctx.check(lazy.identifier == ident, "a lazy config changes its identifier")
    judge(ctx, lazy, ident, comps, f"a lazy config (first access {first})")
    judge_text(ctx, model_configs.to_yaml(lazy), ident, comps, "to_yaml of a lazy config")
    ctx.check(len(calls) == 1, f"a lazy config was loaded {len(calls)} times")
    ctx.count("lazy accesses")
    if rng.random() < 0.3:
        lazy_race(ctx, path, ident, comps)


def lazy_race(ctx, path, ident, comps):
    """the first uses of a lazy config come from several threads at once"""
    rng = ctx.rng
    delay = rng.choice([0, 0.002])

    class Slow(model_configs.YamlModelConfig):
        def create_config(self):
            time.sleep(delay)
            return super().create_config()
    lazy = Slow(path)
    n = rng.randint(2, 4)
    first = [rng.choice(["keys", "metadata", "aliases", "components"]) for _ in range(n)]
    barrier, results = threading.Barrier(n), [None] * n

    def use(i):
        barrier.wait()
        if i:
            time.sleep(delay * i / n)
        try:
            results[i] = list(getattr(lazy, first[i])())
        except Exception as e:
            results[i] = e
    threads = [threading.Thread(target=use, args=(i,)) for i in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for f, r in zip(first, results):
        if isinstance(r, Exception):
            raise r
        ctx.check(set(r) == set(comps if f == "components" else (k for c in comps.values() for k in c)), f"{f} of a lazy config differs when several threads use it first", observed=r[:20])
    judge(ctx, lazy, ident, comps, "a lazy config used by several threads at first")
    ctx.count("lazy races")


def registered(ctx):
    """the configs that come with the library"""
    rng = ctx.rng
    config = rng.choice(model_configs.get_all_base())
    if config.identifier.startswith("vmon"):
        return
    plain = yaml.load(open(config.yaml_config_file), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader)) if hasattr(config, "yaml_config_file") else None
    if plain is None:
        return
    comps = {n: {k: (v.get("shape"), v.get("dtype"), v.get("aliases", []), v.get("optional", False)) for k, v in c.items()} for n, c in plain["components"].items()}
    ctx.note(identifier=config.identifier)
    judge(ctx, config, plain["identifier"], comps, f"{config.identifier}")
    names = collections.Counter(n for c in comps.values() for k, v in c.items() for n in {k, *v[2]})
    twice = [n for n, k in names.items() if k > 1]
    ctx.check(not twice, f"{config.identifier}: names that belong to several keys", names=twice[:5])
    if rng.random() < 0.2:
        text = model_configs.to_yaml(config)
        judge_text(ctx, text, plain["identifier"], comps, f"to_yaml of {config.identifier}")
        judge(ctx, model_configs.from_yaml(text), plain["identifier"], comps, f"from_yaml(to_yaml({config.identifier}))")
        ctx.count("registered configs written")
    ctx.count("registered configs")
    ctx.seen("registered", config.identifier)


BAD = ["x", "X-y", "a-b-c", "-", "a-", "-a", "a b-c", "a-b ", "é-a", "", "a/b-c", "a-b\n", "A-B"]


def registry(ctx):
    """sequences of registrations against a reference registry"""
    rng = ctx.rng
    tag = f"vmonr{ctx.index}.{rng.randrange(10**9)}"
    base, aux = {}, {}
    before = {c.identifier: c for c in model_configs.get_all()}
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(["register", "register_aux", "resolve", "unknown", "bad", "all", "builtin", "taken"])
        if op in ("register", "register_aux"):
            ident = f"{tag}{rng.randint(0, 4)}-{rng.choice('ab')}"
            config = model_configs.from_yaml(f"identifier: {ident}\ncomponents:\n  c:\n    {ident}: {{shape: [2], dtype: float32}}\n")
            fn, store = (model_configs.register, base) if op == "register" else (model_configs.register_aux, aux)
            taken = ident in base or ident in aux
            try:
                fn(config)
            except ValueError:
                ctx.check(taken, f"{op} rejects a new identifier")
            else:
                ctx.check(not taken, f"{op} accepts an identifier that exists already", identifier=ident)
                store[ident] = config
        elif op == "taken":
            ident = rng.choice(list(before))
            config = model_configs.from_yaml(f"identifier: {ident}\ncomponents: {{}}\n")
            try:
                rng.choice([model_configs.register, model_configs.register_aux])(config)
            except ValueError:
                pass
            else:
                ctx.fail("a built-in config can be registered over", identifier=ident)
        elif op == "resolve" and (base or aux):
            ident = rng.choice(list(base) + list(aux))
            want = base.get(ident, aux.get(ident))
            ctx.check(model_configs.resolve(ident) is want, f"resolve({ident!r}) gives another config")
            ctx.check(sd_mecha.model({}, config=ident).model_config is want, "a model gets another config than the one of its identifier")
        elif op == "unknown":
            for ident in (f"{tag}9-z", "structural", tag):
                try:
                    model_configs.resolve(ident)
                except ValueError:
                    continue
                ctx.fail(f"resolve({ident!r}) finds a config")
            ctx.check(model_configs.resolve("infer") is model_configs.INFER, "resolve('infer')")
        elif op == "bad":
            ident = rng.choice(BAD)
            try:
                rng.choice([lambda: model_configs.ModelConfigImpl(identifier=ident, components={}), lambda: model_configs.from_yaml(yaml.safe_dump({"identifier": ident, "components": {}}))])()
            except ValueError:
                continue
            ctx.fail("an invalid identifier is accepted", identifier=ident)
        elif op == "builtin":
            ident = rng.choice(list(before))
            ctx.check(model_configs.resolve(ident) is before[ident], f"resolve({ident!r}) gives another config")
        got_base = [c.identifier for c in model_configs.get_all_base() if c.identifier.startswith(tag)]
        got_aux = [c.identifier for c in model_configs.get_all_aux() if c.identifier.startswith(tag)]
        ctx.check(sorted(got_base) == sorted(base) and sorted(got_aux) == sorted(aux), "the lists of configs are wrong", expected=[sorted(base), sorted(aux)], observed=[got_base, got_aux])
        ctx.check(collections.Counter(c.identifier for c in model_configs.get_all()) == collections.Counter([*before, *base, *aux]), "get_all() is not every config once")
        ctx.count("registry operations")
    ctx.seen("case", (sorted(base), sorted(aux)))
    drop(base, aux)


def drop(base, aux):
    """the registry has no way to forget a config: keep it small for the other cases"""
    for name in ("_model_configs_registry_base", "_model_configs_registry_aux"):
        store = getattr(model_configs, name, None)
        for k in (*base, *aux):
            if isinstance(store, dict):
                store.pop(k, None)


def used(ctx):
    """a config that went through YAML merges like the original one"""
    rng = ctx.rng
    spec = lab.make_spec(f"vmonu{rng.randrange(10**9)}-x", "u", scale=rng.choice([1, 2]))
    config = model_configs.from_yaml(spec.yaml())
    again = model_configs.from_yaml(model_configs.to_yaml(config))
    stored, canon = lab.rand_state(rng, spec, p_missing=0.2)
    kw = {"threads": 0, "output_dtype": None, "merge_dtype": None, "omit_ema": rng.random() < 0.5}
    outs = [merge(sd_mecha.model(dict(stored), config=c), **kw) for c in (config, again)]
    ctx.check(list(outs[0]) == list(outs[1]), "a config gives other keys once it went through YAML", first=list(outs[0]), second=list(outs[1]))
    keys = {k for k in canon if not (kw["omit_ema"] and k in spec.components["ema"])}
    ctx.check(set(outs[1]) == keys, "a config gives wrong keys", expected=sorted(keys), observed=sorted(outs[1]))
    for k in keys:
        ctx.check(torch.equal(outs[1][k], canon[k]), f"wrong value for {k!r}")
    ctx.count("used in merges")


OTHER_LOCALE = """
import sys, pathlib
sys.path.insert(0, sys.argv[1])
from sd_mecha.extensions import model_configs
config = model_configs.YamlModelConfig(pathlib.Path("theirs.yaml"))
sys.stdout.buffer.write(ascii([(k, v.aliases, list(v.shape)) for k, v in config.keys().items()]).encode())
pathlib.Path("ours.yaml").write_text(model_configs.to_yaml(config), encoding="ascii")
"""


def locales(ctx):
    """the content of the file of a config does not depend on the locale of the machine"""
    tmp = ctx.tmpdir()
    keys = {"mod\u00e8le.\u65e5\u672c": {"shape": [2, 3], "dtype": "float32", "aliases": ["\u00fcber", "plain"]}, "plain.key": {"shape": [1], "dtype": "float16"}}
    (tmp / "theirs.yaml").write_bytes(yaml.safe_dump({"identifier": "vmlocale-x", "components": {"c\u00e9": keys}}, allow_unicode=True, sort_keys=False).encode("utf-8"))
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG"))} | {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
    repo = pathlib.Path(sd_mecha.__file__).parent.parent
    res = subprocess.run([sys.executable, "-W", "ignore", "-c", OTHER_LOCALE, str(repo)], cwd=tmp, env=env, capture_output=True, text=True, timeout=200)
    ctx.check(res.returncode == 0, "a config with names that are not ASCII cannot be read in another locale", stderr=res.stderr[-1500:])
    want = ascii([(k, tuple(v.get("aliases", [])), v["shape"]) for k, v in keys.items()])
    got = res.stdout
    ctx.check([[a, list(b), c] for a, b, c in ast.literal_eval(got)] == [[a, list(b), c] for a, b, c in ast.literal_eval(want)],
              "the keys of a config depend on the locale", expected=want, observed=got)
    back = model_configs.from_yaml((tmp / "ours.yaml").read_text(encoding="ascii"))
    ctx.check(list(back.keys()) == list(keys) and list(back.components()) == ["c\u00e9"], "a config written in another locale has other names", observed=list(back.keys()))
    ctx.count("locales")


DIRECTED = [("locales", locales)]
SCENARIOS = [("round_trip", round_trip, 6), ("registered", registered, 1), ("registry", registry, 2), ("used", used, 1)]
