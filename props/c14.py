"""Calling a merge method binds its arguments as Python does."""
import inspect
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.recipe_nodes import LiteralRecipeNode
from torch import Tensor
from mon import lab
from mon.util import merge, captured_logs

ID = "C14"
RULE = ("random signatures (positional, defaulted, variadic, keyword-only, with and without **kwargs) called with random mixes of positional and named arguments, "
        "missing, repeated, unknown and excess ones; acceptance is compared with inspect.Signature.bind, the arguments kept in the recipe and those that the method "
        "receives while merging with what Python would have bound. Distinct by (signature, call shape)")
ASSUMPTIONS = ["parameters are not positional-only", "**kwargs of a merge method only receives what the library passes (key, cache)"]
BUDGET = {"quick": (1000000, 12), "thorough": (10**8, 300)}
REQUIRED = {"bound calls": 1000, "refused calls": 1000, "merged calls": 300, "parameters named key or cache": 50}

lab.register(lab.A)
KEY = "a.main.1.weight"
RECEIVED = []


def make(rng):
    params = []
    n_pos, n_def = rng.randint(0, 3), rng.randint(0, 3)
    for i in range(n_pos):
        params.append((f"p{i}", "pos", None))
    for i in range(n_def):
        params.append((f"d{i}", "pos", float(100 + i)))
    if rng.random() < 0.4:
        params.append(("rest", "var", None))
    for i in range(rng.randint(0, 3)):
        params.append((f"k{i}", "kw", float(200 + i) if rng.random() < 0.6 else None))
    if rng.random() < 0.3:
        kws = [p for p in params if p[1] == "kw"]
        rest = [p for p in params if p[1] != "kw"]
        rng.shuffle(kws)
        params = rest + kws
    if not params:
        params.append(("p0", "pos", None))
    if rng.random() < 0.3:
        # the names under which methods with **kwargs receive what the library passes
        for name in rng.sample(["key", "cache"], rng.randint(1, 2)):
            i = rng.randrange(len(params))
            if params[i][1] != "var":
                params[i] = (name, *params[i][1:])
    varkw = rng.random() < 0.5
    sig, ann, star = [], {}, any(p[1] == "var" for p in params)
    types = {}
    for name, kind, default in params:
        if kind == "kw" and not star:
            sig.append("*")
            star = True
        sig.append({"var": "*"}.get(kind, "") + name + (f"={default!r}" if default is not None else ""))
        types[name] = rng.choice([Tensor, StateDict[Tensor]]) if default is None and kind != "kw" and rng.random() < 0.5 else float
        ann[name] = Parameter(types[name], "param")
    if varkw:
        sig.append("**kwargs")
    ann["return"] = Return(Tensor, "weight")
    names = [p[0] for p in params]
    scope = {"RECEIVED": RECEIVED, "torch": torch}
    exec(f"def f({', '.join(sig)}):\n    RECEIVED.append(({{{', '.join(repr(n) + ': ' + n for n in names)}}}, {'kwargs' if varkw else None}))\n    return torch.zeros(())", scope)
    f = scope["f"]
    f.__annotations__ = ann
    pysig = inspect.Signature([p for p in inspect.signature(f).parameters.values() if p.kind is not p.VAR_KEYWORD])
    return merge_method(f, identifier="vm_c14", register=False), params, types, pysig, f"({', '.join(sig)})"


def call_shape(rng, params):
    """values are unique numbers, so that every received value tells which argument it was"""
    counter = iter(range(1, 100))
    pos = [p for p in params if p[1] == "pos"]
    has_var = any(p[1] == "var" for p in params)
    n_args = rng.randint(0, len(pos))
    if rng.random() < 0.25:
        n_args += rng.randint(1, 2)
    elif has_var and rng.random() < 0.6:
        n_args = len(pos) + rng.randint(0, 3)
    args = [float(next(counter)) for _ in range(n_args)]
    kwargs = {}
    for name, kind, default in params:
        if kind == "pos" and pos.index((name, kind, default)) >= n_args:
            if default is None and rng.random() < 0.9 or default is not None and rng.random() < 0.5:
                kwargs[name] = float(next(counter))
        elif kind == "kw" and rng.random() < (0.9 if default is None else 0.5):
            kwargs[name] = float(next(counter))
    if rng.random() < 0.12 and pos:
        kwargs[rng.choice(pos)[0]] = float(next(counter))  # maybe repeated
    if rng.random() < 0.08:
        kwargs[rng.choice(["nope", "rest", "kwargs", "key", "cache", "self", "args"])] = float(next(counter))
    items = list(kwargs.items())
    rng.shuffle(items)
    return args, dict(items)


def value_of(x):
    if isinstance(x, LiteralRecipeNode):
        return x.value
    if isinstance(x, Tensor):
        return x.item()
    if isinstance(x, StateDict):
        return value_of(x[KEY])
    return x


def binding(ctx):
    rng = ctx.rng
    method, params, types, pysig, text = make(rng)
    names = [p[0] for p in params if p[1] == "pos"]
    for _ in range(8):
        args, kwargs = call_shape(rng, params)
        shape = (text, len(args), tuple(kwargs))
        ctx.note(signature=text, args=args, kwargs=kwargs)
        try:
            bound = pysig.bind(*args, **kwargs)
            bound.apply_defaults()
            want = dict(bound.arguments)
        except TypeError:
            want = None
        given_args, given_kwargs = tuple(args), dict(kwargs)
        try:
            node = method(*args, **kwargs)
        except (TypeError, RuntimeError) as e:
            ctx.check(want is None, f"a valid call was refused: {type(e).__name__} {e}", signature=text, args=args, kwargs=kwargs)
            ctx.count("refused calls")
            ctx.seen("case", shape)
            continue
        ctx.check(want is not None, "an invalid call was accepted", signature=text, args=args, kwargs=kwargs)
        ctx.check(args == list(given_args) and kwargs == given_kwargs, "the call changed the objects it was given", signature=text)
        expected_args = [want[n] for n in names] + list(want.get("rest", ()))
        expected_kwargs = {p[0]: want[p[0]] for p in params if p[1] == "kw"}
        ctx.check([value_of(a) for a in node.args] == expected_args, "positional arguments are bound differently", signature=text, call=(args, kwargs), bound=[value_of(a) for a in node.args], expected=expected_args)
        ctx.check({k: value_of(v) for k, v in node.kwargs.items()} == expected_kwargs, "keyword arguments are bound differently", signature=text, call=(args, kwargs),
                  bound={k: value_of(v) for k, v in node.kwargs.items()}, expected=expected_kwargs)
        ctx.count("bound calls")
        ctx.seen("case", shape)
        if rng.random() < 0.4:
            RECEIVED.clear()
            base = sd_mecha.model({KEY: torch.ones(3, dtype=torch.float64)}, config=lab.A.identifier)
            # `| base` gives the recipe a config
            merge(node | base, threads=0, output_dtype=torch.float64)
            calls = [r for r in RECEIVED]
            ctx.check(len(calls) > 0, "the method was not called while merging", signature=text)
            for received, extra in calls:
                for n, _, _ in params:
                    v = received[n]
                    got = tuple(x if isinstance(x, StateDict) else value_of(x) for x in v) if n == "rest" else v if isinstance(v, StateDict) else value_of(v)
                    if isinstance(v, StateDict) or n == "rest" and any(isinstance(x, StateDict) for x in v):
                        continue
                    exp = want[n] if n != "rest" else tuple(want.get("rest", ()))
                    ctx.check(got == exp, f"parameter {n!r} received {got!r}, expected {exp!r}", signature=text, call=(args, kwargs))
                    if types[n] is float and n != "rest":
                        ctx.check(type(v) is float, f"parameter {n!r} of type float received a {type(v).__name__}", signature=text)
                    elif types[n] is Tensor and n != "rest":
                        ctx.check(isinstance(v, Tensor), f"parameter {n!r} of type Tensor received a {type(v).__name__}", signature=text)
                if extra is not None:
                    ctx.check(set(extra) == {"key", "cache"} - set(types), f"**kwargs received {sorted(extra)}", signature=text)
                    if set(types) & {"key", "cache"}:
                        ctx.count("parameters named key or cache")
            ctx.count("merged calls")
    ctx.sample(signature=text, args=args, kwargs=kwargs, accepted=want is not None)


def no_arguments(ctx):
    """variadic methods accept no argument at all"""
    base = sd_mecha.model({KEY: torch.ones(3, dtype=torch.float64)}, config=lab.A.identifier)
    out = merge(sd_mecha.dropout(base), threads=0, output_dtype=torch.float64)
    ctx.check(torch.equal(out[KEY], torch.ones(3, dtype=torch.float64)), "dropping nothing changed the model")


DIRECTED = [("no_arguments", no_arguments)]
SCENARIOS = [("binding", binding, 1)]
