"""Declarations of merge methods: usable ones are registered under their name, unusable ones are refused and leave no trace."""
import collections
import random
import typing
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from sd_mecha.extensions.merge_methods import MergeMethod
from sd_mecha.extensions.merge_spaces import MergeSpaceSymbol
from sd_mecha.recipe_nodes import MergeRecipeNode
from torch import Tensor
from mon import lab
from mon.core import Skip
from mon.util import merge

ID = "C33"
RULE = ("random declarations of merge methods (positional, variadic and keyword-only parameters, defaults, types, spaces, symbols, configs, returns, names, registration) with at "
        "most one defect planted anywhere, declared one after another in one process over a small set of names; acceptance, the registries, and what the registered names do are compared with "
        "an independent statement of the rules after each declaration. Random sequences of usable and unusable conversions, redeclared at will: convert() has to use exactly the accepted ones. "
        "Distinct by (declaration, defect, history)")
ASSUMPTIONS = ["a keyword-only parameter's config counts as an input config when it is declared"]
BUDGET = {"quick": (1000000, 12), "thorough": (10**8, 300)}
REQUIRED = {"accepted": 300, "refused": 300, "calls": 200, "conversions": 100, "refused conversions": 100, "convert calls": 200, "redeclared": 50}

lab.register(lab.A)
lab.register(lab.B)
STATE = lab.rand_state(random.Random(5), lab.A, dtype=torch.float32)[0]
GOOD_TYPES = [Tensor, float, int, str, bool, StateDict[Tensor]]
BAD_TYPES = [list, dict, set, bytes, complex, object]
BARE = object()  # Parameter / Return without parentheses
DEFECTS = ["no annotation", "foreign annotation", "bare", "bad type", "default not param", "no return", "foreign return", "bare return", "bad return type",
           "lonely symbol", "structural", "structural return", "unknown space", "unknown config", "no return config", "unregistered conversion"]


def snapshot():
    return {m.identifier: m for m in merge_methods.get_all()}, {m.identifier: m for m in merge_methods.get_all_converters()}


def same_snapshot(a, b):
    return all(x.keys() == y.keys() and all(x[k] is y[k] for k in x) for x, y in zip(a, b))


def declare(text, annotations, identifier, name, **options):
    """builds the annotations (which may raise) and declares the method"""
    scope = {}
    exec(f"def {name}{text}", scope)
    f = scope[name]
    f.__annotations__ = {k: v() for k, v in annotations.items() if v is not None}
    if identifier is not None:
        options["identifier"] = identifier
    if options:
        return merge_method(**options)(f)
    return merge_method(f)


def rand_annotation(rng, typ, space, config):
    kw = {}
    if space is not None:
        kw["merge_space"] = space
    if config is not None:
        kw["model_config"] = rng.choice([config, model_configs.resolve(config)])
    if typ is not Tensor and typing.get_origin(typ) is None and rng.random() < 0.2:
        return lambda: typing.Optional[Parameter(typ, **kw)]
    return lambda: Parameter(typ, **kw)


def declaration(ctx):
    rng = ctx.rng
    status, value = ctx.fork(declarations_child, ctx, rng.getrandbits(64))
    if status == "exc":
        ctx.fail(f"{value[0]}: {value[1]}", traceback=value[2])
    ctx.check(status == "ok", f"the process ended with {status} {value}")


def declarations_child(ctx, seed):
    rng = random.Random(seed)
    names = [f"vm_c33_{c}" for c in "abc"]
    current = {}
    for step in range(30):
        one_declaration(ctx, rng, names, current, step)


def one_declaration(ctx, rng, names, current, step):
    symbol = MergeSpaceSymbol("weight", "delta")
    other = MergeSpaceSymbol("weight", "delta")
    explicit = rng.random() < 0.2  # every parameter says its config
    params = []
    for i in range(rng.randint(0, 3)):
        params.append(dict(name=f"p{i}", kind="pos", default=False))
    for i in range(rng.randint(0, 2)):
        params.append(dict(name=f"d{i}", kind="pos", default=True))
    if rng.random() < 0.35:
        params.append(dict(name="rest", kind="var", default=False))
    for i in range(rng.randint(0, 2)):
        params.append(dict(name=f"k{i}", kind="kw", default=rng.random() < 0.5))
    if not params:
        params.append(dict(name="p0", kind="pos", default=False))
    for p in params:
        p["type"] = rng.choice(GOOD_TYPES)
        p["space"] = rng.choice([None, None, "param"]) if p["default"] else rng.choice([None, None, "weight", "param", ("weight", "delta"), symbol])
        p["config"] = lab.A.identifier if explicit or rng.random() < 0.15 else None
    ret = dict(type=rng.choice([Tensor, Tensor, Tensor, float, str]), config=lab.A.identifier if rng.random() < 0.3 else None)
    ret["space"] = rng.choice([None, "weight", "param"])
    if any(p["space"] is symbol for p in params) and rng.random() < 0.5:
        ret["space"] = symbol
    all_explicit = all(p["config"] is not None for p in params)
    if all_explicit:
        ret["config"] = rng.choice([lab.A.identifier, lab.B.identifier])

    defect = rng.choice(DEFECTS) if rng.random() < 0.5 else None
    victim = rng.choice(params)
    annotations = {}
    options = {}
    if defect == "bad type":
        victim["type"] = rng.choice(BAD_TYPES)
    elif defect == "default not param":
        candidates = [p for p in params if p["default"]]
        if not candidates:
            defect = None
        else:
            victim = rng.choice(candidates)
            victim["space"] = rng.choice(["weight", "delta", ("param", "weight"), ("weight",), symbol])
    elif defect == "bad return type":
        ret["type"] = rng.choice([*BAD_TYPES, StateDict[Tensor]])
    elif defect == "lonely symbol":
        ret["space"] = other
    elif defect == "unknown space":
        (rng.choice([victim, ret]) if not victim["default"] else ret)["space"] = "no such space"
    elif defect == "unknown config":
        rng.choice([victim, ret])["config"] = "no-such-config"
    elif defect == "structural":
        victim["config"] = "structural"
    elif defect == "structural return":
        ret["config"] = "structural"
    elif defect == "no return config":
        for p in params:
            p["config"] = lab.A.identifier
        ret["config"] = None
    elif defect == "unregistered conversion":
        options = {"register": False, "is_conversion": True}
        params = [dict(name="p0", kind="pos", default=False, type=Tensor, space=None, config=lab.A.identifier)]
        ret |= dict(type=Tensor, space=None, config=lab.B.identifier)
    for p in params:
        space, typ, config = p["space"], p["type"], p["config"]
        if isinstance(config, str) and config in ("structural", "no-such-config"):
            annotations[p["name"]] = lambda t=typ, s=space, c=config: Parameter(t, s, c)
        else:
            annotations[p["name"]] = rand_annotation(rng, typ, space, config)
    rkw = {"merge_space": ret["space"], "model_config": ret["config"]}
    annotations["return"] = lambda: Return(ret["type"], **rkw)
    if defect == "no annotation":
        annotations[victim["name"]] = None
    elif defect == "foreign annotation":
        t = rng.choice([Tensor, float, int, str])
        annotations[victim["name"]] = lambda: t
    elif defect == "bare":
        annotations[victim["name"]] = lambda: Parameter
    elif defect == "no return":
        annotations["return"] = None
    elif defect == "foreign return":
        t = rng.choice([Tensor, float])
        annotations["return"] = rng.choice([lambda: t, lambda: Parameter(Tensor)])
    elif defect == "bare return":
        annotations["return"] = lambda: Return

    sig, kw_started = [], any(p["kind"] == "var" for p in params)
    for p in params:
        if p["kind"] == "kw" and not kw_started:
            sig.append("*")
            kw_started = True
        sig.append(("*" if p["kind"] == "var" else "") + p["name"] + ("=1" if p["default"] else ""))
    if rng.random() < 0.3:
        sig.append("**kwargs")
    # the result tells which declaration was called
    name = rng.choice(names)
    identifier = rng.choice([None, *names])
    if not options and rng.random() < 0.25:
        options = {"register": rng.random() < 0.4}
    text = f"({', '.join(sig)}): return {step + 1}.0" if ret["type"] is not str else f"({', '.join(sig)}): return '{step + 1}'"
    target = identifier or name

    before = snapshot()
    case = dict(signature=text, types={p["name"]: (str(p["type"]), str(p["space"]), p["config"]) for p in params}, ret=(str(ret["type"]), str(ret["space"]), ret["config"]),
                defect=defect, victim=victim["name"], options=options, name=name, identifier=identifier, step=step)
    ctx.note(**case)
    sig_key = (text.split(":")[0], defect, str(case["types"]).replace(hex(id(symbol)), ""), tuple(sorted(options.items())))
    try:
        method = declare(text, annotations, identifier, name, **options)
    except (TypeError, ValueError, RuntimeError, AssertionError) as e:
        ctx.check(defect is not None, f"a correct declaration was refused: {type(e).__name__}: {e}", **case)
        ctx.check(same_snapshot(before, snapshot()), "a refused declaration changed the registered merge methods", **case)
        ctx.count("refused")
        ctx.count(f"refused: {defect}")
        ctx.seen("case", sig_key)
        return
    ctx.check(defect is None, f"an unusable declaration was accepted", **case)
    ctx.count("accepted")
    ctx.seen("case", sig_key)
    registered = options.get("register", True)
    after = snapshot()
    ctx.check(isinstance(method, MergeMethod) and method.identifier == target, f"the method is known as {getattr(method, 'identifier', None)!r}, expected {target!r}", **case)
    if registered:
        if target in before[0]:
            ctx.count("redeclared")
        ctx.check(merge_methods.resolve(target) is method, "resolve() does not give the method that was declared last", **case)
        want = before[0] | {target: method}
        current[target] = step
    else:
        want = before[0]
    ctx.check(same_snapshot((want, before[1]), after), "the registered merge methods are not those declared", added=sorted(after[0].keys() - before[0].keys()), **case)
    # every name still does what its last declaration does
    if ret["type"] is Tensor and all(p["type"] != StateDict[Tensor] for p in params):
        try:
            args = [1.0 if p["type"] is Tensor else p["type"](1) for p in params if p["kind"] == "pos" and not p["default"]]
            kwargs = {p["name"]: 1.0 if p["type"] is Tensor else p["type"](1) for p in params if p["kind"] == "kw" and not p["default"]}
            space = ret["space"]
            if space is symbol or any(p["space"] not in (None, "param") for p in params):
                raise Skip
            try:
                node = method(*args, **kwargs)
            except RuntimeError:
                # nothing tells the space of the result
                ctx.check(not args and not kwargs and space is None, "a call was refused", **case)
                return
        except Skip:
            return
        direct = node.merge_method.merge_key(tuple(torch.tensor(a) if isinstance(a, float) else a for a in args), dict(kwargs), "k", None)
        ctx.check(direct == step + 1, f"the method declared last gives {direct}, expected {step + 1}", **case)
        ctx.check(node.merge_method is method, "a call of the method makes a node of another method", **case)
        ctx.count("calls")


SHAPES = ["plain", "plain", "plain", "varargs", "arg and varargs", "keyword with default", "optional argument",
          "no config", "two arguments", "keyword only", "required keyword", "varargs without config", "no return config", "unregistered", "not a conversion", "no argument"]
VALID = {"plain", "varargs", "arg and varargs", "keyword with default", "not a conversion"}


def conversions(ctx):
    status, value = ctx.fork(conversions_child, ctx, ctx.rng.getrandbits(64))
    if status == "exc":
        ctx.fail(f"{value[0]}: {value[1]}", traceback=value[2])
    ctx.check(status == "ok", f"the process ended with {status} {value}")


def conversions_child(ctx, seed):
    rng = random.Random(seed)
    n = rng.randint(2, 5)
    configs = [f"vmc33{chr(97 + i)}-x" for i in range(n)]
    for i, name in enumerate(configs):
        model_configs.register(model_configs.from_yaml(f"identifier: {name}\ncomponents:\n  main:\n    n{i}.k: {{shape: [2], dtype: float32}}\n"))
    live = {}  # identifier -> (i, j, mark)
    history = []
    for step in range(rng.randint(6, 20)):
        i, j = rng.sample(range(n), 2)
        shape = rng.choice(SHAPES)
        identifier = f"vm_c33_conv{rng.randrange(6)}"
        src, dst = configs[i], configs[j]
        arg = lambda c: Parameter(Tensor, None, c)
        declared = {"x": lambda: Parameter(StateDict[Tensor], None, src)}
        text = "(x, **kwargs)"
        body = f"x['n{i}.k'] * 2 + {step + 1}"
        options = {"is_conversion": True}
        if shape == "varargs":
            text, declared, body = "(*x, **kwargs)", {"x": lambda: Parameter(StateDict[Tensor], None, src)}, f"x[0]['n{i}.k'] * 2 + {step + 1}"
        elif shape == "arg and varargs":
            text, declared["rest"] = "(x, *rest)", lambda: Parameter(Tensor, None, rng.choice([None, dst]))
        elif shape == "keyword with default":
            text, declared["alpha"] = "(x, *, alpha=1.0)", lambda: Parameter(float)
        elif shape == "optional argument":
            text, declared["alpha"] = "(x, alpha=1.0)", lambda: Parameter(float)
        elif shape == "no config":
            declared["x"] = lambda: Parameter(StateDict[Tensor])
        elif shape == "two arguments":
            text, declared["y"] = "(x, y)", lambda: Parameter(Tensor, None, src)
        elif shape == "keyword only":
            text = "(*, x)"
        elif shape == "required keyword":
            text, declared["alpha"] = "(x, *, alpha)", lambda: Parameter(float)
        elif shape == "varargs without config":
            text, declared["x"] = "(*x)", lambda: Parameter(StateDict[Tensor])
        elif shape == "unregistered":
            options["register"] = False
        elif shape == "not a conversion":
            options = rng.choice([{}, {"is_conversion": False}])
        elif shape == "no argument":
            text, declared, body = "()", {}, "1"
        declared["return"] = lambda: Return(Tensor, None, dst if shape != "no return config" else None)
        valid = shape in VALID
        before = snapshot()
        history.append((shape, identifier[-1], i, j))
        case = dict(history=list(history), configs=n)
        ctx.note(**case)
        try:
            declare(f"{text}: return {body}", declared, identifier, "f", **options)
        except (TypeError, ValueError, RuntimeError, AssertionError) as e:
            ctx.check(not valid, f"a correct conversion was refused: {type(e).__name__}: {e}", **case)
            ctx.check(same_snapshot(before, snapshot()), "a refused conversion changed the registered merge methods", **case)
            ctx.count("refused conversions")
        else:
            ctx.check(valid, f"an unusable conversion was accepted", **case)
            if identifier in before[0]:
                ctx.count("redeclared")
            if shape == "not a conversion":
                live.pop(identifier, None)
            else:
                live[identifier] = (i, j, step + 1)
                ctx.count("conversions")
        for method in merge_methods.get_all_converters():
            ctx.check(merge_methods.resolve(method.identifier) is method, f"the conversion {method.identifier!r} is not the method of that name", **case)
        ours = {m.identifier for m in merge_methods.get_all_converters() if m.identifier.startswith("vm_c33_conv")}
        ctx.check(ours == set(live), f"the conversions are {sorted(ours)}, expected {sorted(live)}", **case)
        if rng.random() < 0.5:
            check_convert(ctx, rng, n, configs, live, case)
    ctx.seen("case", tuple(history))


def check_convert(ctx, rng, n, configs, live, case):
    a, b = rng.sample(range(n), 2)
    dist = {a: 0}
    todo = collections.deque([a])
    while todo:
        x = todo.popleft()
        for i, j, _ in live.values():
            if i == x and j not in dist:
                dist[j] = dist[x] + 1
                todo.append(j)
    source = sd_mecha.model({f"n{a}.k": torch.tensor([1.0, 2.0])}, config=configs[a])
    case = case | {"source": a, "target": b}
    try:
        node = sd_mecha.convert(source, configs[b])
    except ValueError as e:
        ctx.check(b not in dist, f"a conversion exists but was refused: {e}", **case)
        ctx.count("convert calls")
        return
    ctx.check(b in dist, "a conversion was found although there is none", **case)
    want, chain, at = torch.tensor([1.0, 2.0]), [], node
    while isinstance(at, MergeRecipeNode):
        chain.append(at.merge_method.identifier)
        at = at.args[0]
    chain.reverse()
    ctx.check(len(chain) == dist[b] and all(c in live for c in chain), f"the chain is {chain}, a shortest has {dist[b]} steps", **case)
    for c in chain:
        want = want * 2 + live[c][2]
    out = merge(node, threads=0)
    ctx.check(set(out) == {f"n{b}.k"} and torch.equal(out[f"n{b}.k"], want), f"the converted model is {out}, expected {want.tolist()} from {chain}", **case)
    ctx.count("convert calls")


SCENARIOS = [("declarations", declaration, 1), ("conversions", conversions, 1)]
DIRECTED = []
