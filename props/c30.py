"""Inside a merge method: its key, its cache, and views of whole models."""
import collections.abc
import gc
import threading
import weakref
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict, StateDictKeyError
from sd_mecha.extensions import model_configs
from torch import Tensor
from mon import lab, dag
from mon.util import merge, describe

ID = "C30"
RULE = ("probe methods record what they receive and use a StateDict argument in every way a mapping can be used (item, get, in, len, iteration, keys, values, items, other keys, missing keys, unknown "
        "keys, model_config) while random recipes over models with missing keys merge with random threads; everything is compared with a reference of the sub-recipe. Caches are dictionaries "
        "that tests share between merges, nodes and keys. Distinct by (recipe, way of use)")
ASSUMPTIONS = ["a cache shared between threads is the method's own responsibility"]
BUDGET = {"quick": (100000, 12), "thorough": (10**7, 300)}
REQUIRED = {"views used": 1500, "missing keys seen": 300, "calls recorded": 2000, "caches checked": 300, "errors handled": 50, "own caches": 50}

lab.register(lab.A, lab.BIG)
LOCK = threading.RLock()
CALLS = []
JOB = {}


def record(**kw):
    with LOCK:
        CALLS.append(kw)


@merge_method
def vm30_view(
    x: Parameter(StateDict[Tensor]),
    *ys: Parameter(StateDict[Tensor]),
    k: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    views = {"x": x, "k": k} | {f"y{i}": y for i, y in enumerate(ys)}
    for name, way, other in JOB["plan"][key]:
        if name not in views:
            continue
        record(key=key, name=name, way=way, other=other, result=use(views[name], way, other))
    return x[key]


@merge_method
def vm30_plain(x: Parameter(Tensor), **kwargs) -> Return(Tensor):
    record(key=kwargs["key"], cache=kwargs["cache"], extra=sorted(set(kwargs) - {"key", "cache"}))
    return x


@merge_method
def vm30_other_key(x: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    """asks its argument for the next key of the same shape"""
    keys = x.model_config.keys()
    same = [k for k in keys if keys[k].shape == keys[kwargs["key"]].shape]
    return x[same[(same.index(kwargs["key"]) + 1) % len(same)]]


@merge_method
def vm30_cached(x: Parameter(Tensor), **kwargs) -> Return(Tensor):
    """a cache that is used the usual way"""
    cache, key = kwargs["cache"], kwargs["key"]
    if cache is None:
        record(key=key, cache=None)
        return x
    with LOCK:
        if key not in cache:
            cache[key] = x * 2
        else:
            record(key=key, hit=True)
        return cache[key]


@merge_method
def vm30_optional(x: Parameter(StateDict[Tensor]), default: Parameter(float) = 7.0, **kwargs) -> Return(Tensor):
    """deals with missing keys itself"""
    try:
        return x[kwargs["key"]]
    except KeyError as e:
        record(error=type(e).__name__, is_missing=isinstance(e, StateDictKeyError), args=e.args)
        return torch.tensor(default, dtype=torch.float64)


@merge_method
def vm30_numbers(
    f: Parameter(StateDict[float], "param"),
    i: Parameter(StateDict[int], "param"),
    t: Parameter(StateDict[Tensor], "param"),
    x: Parameter(Tensor),
    **kwargs,
) -> Return(Tensor):
    for k in JOB["keys"]:
        record(key=k, values=[v.get(k) for v in (f, i, t)])
    return x


def use(view, way, other):
    try:
        if way == "item":
            return view[other]
        if way == "get":
            return view.get(other, "default")
        if way == "get_none":
            return view.get(other)
        if way == "in":
            return other in view
        if way == "len":
            return len(view)
        if way == "iter":
            return list(view)
        if way == "keys":
            return list(view.keys())
        if way == "config":
            return view.model_config.identifier
        if way == "config_keys":
            return list(view.model_config.keys())
        if way == "isinstance":
            return isinstance(view, StateDict) and isinstance(view, collections.abc.Mapping)
        if way == "present":
            return sorted(k for k in view if k in view)
        if way == "twice":
            return view[other], view[other]
    except Exception as e:
        return e


WAYS = ["item", "item", "get", "get_none", "in", "len", "iter", "keys", "config", "config_keys", "isinstance", "present", "twice"]


def options(rng):
    return {"threads": rng.choice([0, 0, 1, 3, None]), "output_dtype": torch.float64, "omit_ema": False, "total_buffer_size": rng.choice([0, 64, 2**18])}


def views(ctx):
    rng = ctx.rng
    gen = dag.Gen(rng, ctx.tmpdir(), lab.A, p_missing=rng.choice([0, 0.2, 0.5]), n_models=3)
    refs = {}
    args = []
    for name in ["x", *[f"y{i}" for i in range(rng.randint(0, 2))], "k"]:
        ref, node = gen.gen("weight", rng.randint(0, 2))
        refs[name] = ref
        args.append(node)
    keys = list(lab.A.keys)
    plan = {key: [(rng.choice(["x", "k", "y0", "y1"]), rng.choice(WAYS), rng.choice([key, rng.choice(keys), rng.choice(keys), "no.such.key", ""])) for _ in range(rng.randint(1, 5))] for key in keys}
    JOB["plan"] = plan
    CALLS.clear()
    out = merge(vm30_view(*args[:-1], k=args[-1]), **options(rng))
    want = gen.expected(refs["x"])
    ctx.note(recipes={k: v.text for k, v in refs.items()})
    ctx.check(set(out) == set(want), "the method's own errors change which keys have a value", missing=sorted(set(want) - set(out))[:4], extra=sorted(set(out) - set(want))[:4])
    for k, v in want.items():
        ctx.check(dag.numerically_equal(out[k], v), f"wrong value for {k!r}", expected=describe(v), actual=describe(out[k]))
    called = {c["key"] for c in CALLS}
    expected_calls = {key for key in keys if any(p[0] in refs for p in plan[key])}
    ctx.check(called == expected_calls, "a method that takes state dicts is not called for every key", missing=sorted(expected_calls - called), extra=sorted(called - expected_calls))
    for c in CALLS:
        judge_view(ctx, c, refs[c["name"]], keys)
        ctx.count("views used")
    ctx.seen("case", ("view", tuple(r.text for r in refs.values())))
    ctx.sample(recipes={k: v.text[:200] for k, v in refs.items()}, uses=[(c["name"], c["way"], c["other"]) for c in CALLS[:6]])


def judge_view(ctx, c, ref, keys):
    way, other, got = c["way"], c["other"], c["result"]
    what = f"{way} {other!r} of argument {c['name']} ({ref.text[:300]}) while merging {c['key']!r}"

    def value(k):
        if k not in lab.A.keys:
            return None
        try:
            return ref(k)
        except dag.Missing:
            return None
    v = value(other)
    if v is None:
        ctx.count("missing keys seen")
    if way in ("len", "iter", "keys", "config_keys"):
        ctx.check(not isinstance(got, Exception), f"{what} fails", error=repr(got))
        ctx.check((got == len(keys)) if way == "len" else (got == keys), f"{what}: not the keys of the config", observed=got, expected=keys)
    elif way == "config":
        ctx.check(got == lab.A.identifier, f"{what}: {got!r}")
    elif way == "isinstance":
        ctx.check(got is True, f"{what}: the argument is no StateDict")
    elif way == "in":
        ctx.check(got is (v is not None), f"{what}: {got!r}")
    elif way == "present":
        ctx.check(got == sorted(k for k in keys if value(k) is not None), f"{what}: the keys with a value are wrong", observed=got)
    elif v is None:
        if way == "get":
            ctx.check(isinstance(got, str) and got == "default", f"{what}: {describe(got)} instead of the default")
        elif way == "get_none":
            ctx.check(got is None, f"{what}: {describe(got)} instead of None")
        else:
            ctx.check(isinstance(got, KeyError), f"{what}: {describe(got)} instead of a KeyError")
            if other in lab.A.keys:
                ctx.check(isinstance(got, StateDictKeyError), f"{what}: {got!r} is no StateDictKeyError")
    else:
        for t in got if way == "twice" else [got]:
            ctx.check(isinstance(t, Tensor) and t.dtype == torch.float64 and dag.numerically_equal(t, v), f"{what}: wrong value", observed=describe(t), expected=describe(v))


def keys_and_caches(ctx):
    """every method gets the key that is being asked for, and the cache of its own node"""
    rng = ctx.rng
    stored, canon = lab.rand_state(rng, lab.A, p_missing=rng.choice([0, 0.3]))
    model = lab.as_model(rng, stored, ctx.tmpdir(), lab.A.identifier)
    node = vm30_plain(model)
    how = rng.choice(["none", "given", "given", "fresh", "reset"])
    cache = None
    if how == "given":
        cache = {"mine": 1}
        ret = node.set_cache(cache)
    elif how == "fresh":
        ret = node.set_cache()
    elif how == "reset":
        node.set_cache({})
        ret = node.set_cache(None)
    else:
        ret = node
    ctx.check(ret is node, "set_cache() does not return its node")
    moved = rng.random() < 0.4
    recipe = vm30_other_key(node) if moved else node
    if rng.random() < 0.4:
        recipe = sd_mecha.n_average(recipe, recipe) if rng.random() < 0.5 else recipe | model
    CALLS.clear()
    for _ in range(rng.randint(1, 2)):
        merge(recipe, **options(rng))
    ctx.check({c["key"] for c in CALLS} == set(canon), "the keys that a method sees are not the keys it is asked for", observed=sorted({c["key"] for c in CALLS})[:20], expected=sorted(canon))
    ctx.check(not any(c["extra"] for c in CALLS), "a method gets keywords nobody gave", observed=CALLS[0])
    caches = {id(c["cache"]): c["cache"] for c in CALLS}
    ctx.check(len(caches) <= 1, "one node gets several caches")
    for c in caches.values():
        if how == "given":
            ctx.check(c is cache, "a method does not get the cache it was given")
        elif how == "fresh":
            ctx.check(isinstance(c, dict) and not c, "set_cache() without a cache gives no empty dictionary")
        else:
            ctx.check(c is None, "a method gets a cache although there is none")
    if how == "given":
        ctx.check(cache == {"mine": 1}, "something else writes in the cache of a node", observed=list(cache))
    ctx.count("calls recorded", len(CALLS))
    # two nodes that were not given a cache each have one of their own
    nodes = [vm30_cached(sd_mecha.model(s, config=lab.A.identifier)).set_cache() for s in (stored, {k: v + 1 for k, v in stored.items()})]
    CALLS.clear()
    both = [merge(n, **options(rng) | {"merge_dtype": torch.float64}) for n in nodes]
    ctx.check(not any(c.get("hit") for c in CALLS), "a node finds the cached values of another node", observed=[c["key"] for c in CALLS][:5])
    for i, out in enumerate(both):
        for k, v in canon.items():
            ctx.check(torch.equal(out[k], (v + i).double() * 2), f"wrong value for {k!r} with a cache of its own", observed=out[k].flatten()[:4].tolist(), expected=((v + i).double() * 2).flatten()[:4].tolist())
    ctx.count("own caches")
    ctx.count("caches checked")
    ctx.seen("case", ("keys", how, moved, tuple(sorted(canon))))


def caches(ctx):
    """a cache lives as long as its owner wants, and is not shared with other nodes"""
    rng = ctx.rng
    stored, canon = lab.rand_state(rng, lab.A, p_missing=rng.choice([0, 0.3]), dtype=torch.float64)
    other, other_canon = lab.rand_state(rng, lab.A, dtype=torch.float64)
    cache = {}
    one = vm30_cached(sd_mecha.model(stored, config=lab.A.identifier)).set_cache(cache)
    kw = options(rng)
    first = merge(one, **kw)
    ctx.check(set(cache) == set(canon), "a cache does not keep what a method put in", observed=sorted(cache), expected=sorted(canon))
    for k, v in canon.items():
        ctx.check(torch.equal(first[k], v * 2), f"wrong value for {k!r}")
    # another model with the same cache: what is cached wins; the method decides that, not the library
    two = vm30_cached(sd_mecha.model(other, config=lab.A.identifier))
    CALLS.clear()
    if rng.random() < 0.5:
        two.set_cache(cache)
        before = dict(cache)
        out = merge(two, **kw)
        for k, v in other_canon.items():
            ctx.check(torch.equal(out[k], before[k] if k in before else v * 2), f"wrong cached value for {k!r}")
        ctx.check({c["key"] for c in CALLS if c.get("hit")} == set(before), "cached keys are not found again")
    else:
        out = merge(two, **kw)
        for k, v in other_canon.items():
            ctx.check(torch.equal(out[k], v), f"a node without cache gives a cached value for {k!r}")
        ctx.check(all(c["cache"] is None for c in CALLS), "a node gets the cache of another one")
        ctx.check(set(cache) == set(canon), "a cache is written by a node it was not given to")
    ctx.count("caches checked")
    ctx.seen("case", ("cache", tuple(sorted(canon))))


def handled(ctx):
    """a method may handle missing keys of its arguments, whatever they come from"""
    rng = ctx.rng
    gen = dag.Gen(rng, ctx.tmpdir(), lab.A, p_missing=rng.choice([0.2, 0.5]), n_models=3)
    ref, node = gen.gen("weight", rng.randint(0, 3))
    default = rng.choice([7.0, -1.0])
    CALLS.clear()
    out = merge(vm30_optional(node, default), **options(rng))
    want = gen.expected(ref)
    ctx.check(set(out) == set(lab.A.keys), "keys that the method gives a value to are left out", missing=sorted(set(lab.A.keys) - set(out))[:5], recipe=ref.text[:1000])
    for k in lab.A.keys:
        v = want.get(k, torch.tensor(default, dtype=torch.float64))
        ctx.check(dag.numerically_equal(out[k], v), f"wrong value for {k!r}", expected=describe(v), actual=describe(out[k]), recipe=ref.text[:1000])
    ctx.check(all(c["is_missing"] for c in CALLS), "a missing key is reported by another error", errors=[c["error"] for c in CALLS if not c["is_missing"]][:4])
    ctx.check(len(CALLS) == len(lab.A.keys) - len(want), "missing keys are reported to the method a wrong number of times")
    ctx.count("errors handled", len(CALLS))
    ctx.seen("case", ("handled", ref.text))


def numbers(ctx):
    """state dicts of numbers hold numbers of the declared type"""
    rng = ctx.rng
    stored, canon = lab.rand_state(rng, lab.A, dtype=torch.float64)
    keys = list(lab.A.keys)
    JOB["keys"] = keys
    data = {}
    args = []
    for kind in ("float", "int", "tensor"):
        d = {k: rng.choice([0, 1, 2, -3, 5]) if kind == "int" else rng.choice([0.5, 2.0, -1.25, 3]) for k in keys if rng.random() < 0.7} or {keys[0]: 1}
        if rng.random() < 0.3:
            v = rng.choice([1, 2])
            d = dict.fromkeys(keys, v)
            args.append(v)
        else:
            args.append(rng.choice([dict, lambda d: sd_mecha.literal(d, config=lab.A.identifier)])(d))
        data[kind] = d
    CALLS.clear()
    out = merge(vm30_numbers(*args, sd_mecha.model(stored, config=lab.A.identifier)), **options(rng))
    ctx.check(set(out) == set(keys), "keys are left out")
    for c in CALLS:
        for (kind, d), got in zip(data.items(), c["values"]):
            want = d.get(c["key"])
            what = f"the {kind} for {c['key']!r} is {got!r}, not {want!r}"
            if want is None:
                ctx.check(got is None, what)
            elif kind == "tensor":
                ctx.check(isinstance(got, Tensor) and float(got) == want, what)
            else:
                ctx.check(isinstance(got, int if kind == "int" else (int, float)) and got == want, what)
            ctx.count("views used")
    ctx.seen("case", ("numbers", str(data)))


SCENARIOS = [("views", views, 4), ("keys_and_caches", keys_and_caches, 2), ("caches", caches, 1), ("handled", handled, 2), ("numbers", numbers, 1)]
