"""Merge spaces are checked and inferred when a recipe is built."""
import json
import pathlib
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, merge_spaces
from sd_mecha.extensions.merge_spaces import MergeSpaceSymbol
from torch import Tensor
from mon import lab
from mon.core import Skip
from mon.util import merge

ID = "C12"
RULE = ("random method signatures (explicit spaces, sets of spaces, shared symbols, undeclared spaces, defaults, variadic and keyword-only parameters, every "
        "kind of return declaration) x random spaces of the arguments: acceptance and the inferred space are compared with an independent statement of the "
        "typing rule; every built-in operation is probed with every combination of spaces, registered ones included. Distinct by (signature, argument spaces)")
ASSUMPTIONS = ["a method without any parameter of undeclared space, and without a declared return space, is only judged when all its parameters declare the same single space"]
BUDGET = {"quick": (1000000, 12), "thorough": (10**8, 300)}
REQUIRED = {"accepted": 1000, "rejected": 1000, "builtin combinations": 300, "strict rejections": 20, "spaces registered": 20}

BUILTIN_SPACES = ["weight", "delta", "param"]
OWN_SPACES = ["vmonspace12", "vmonspace12b"]  # registered after the built-in methods were declared
SPACES = BUILTIN_SPACES + OWN_SPACES
for own in OWN_SPACES:
    merge_spaces.register_merge_space(own)
lab.register(lab.A)
STATE = lab.rand_state(__import__("random").Random(3), lab.A, dtype=torch.float32)[0]
DEFAULT = object()


def node_of(space, rng):
    kind = rng.choice(["model", "literal", "file", "nested"])
    if kind == "file":
        return sd_mecha.model("x.safetensors", config=lab.A.identifier, merge_space=space)
    if kind == "literal":
        return sd_mecha.literal(1.0, merge_space=space)
    if kind == "nested" and space in ("weight", "delta"):
        m = lambda s: sd_mecha.model(STATE, config=lab.A.identifier, merge_space=s)
        return {"weight": lambda: m("weight") + m("delta"), "delta": lambda: m("weight") - m("weight")}[space]()
    return sd_mecha.model(STATE, config=lab.A.identifier, merge_space=space)


def rand_space_decl(rng, symbols):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.6:
        return rng.choice(SPACES)
    if r < 0.75:
        return tuple(rng.sample(SPACES, rng.randint(1, 3)))
    return rng.choice(symbols)


def to_arg(decl, rng):
    if isinstance(decl, str):
        return rng.choice([decl, merge_spaces.resolve(decl), {decl}])
    if isinstance(decl, tuple):
        return rng.choice([list, set, tuple])(rng.choice([d, merge_spaces.resolve(d)]) for d in decl)
    return decl[0] if isinstance(decl, list) else decl


def make(rng):
    """signature -> (method or exception, description)"""
    symbols = []
    for _ in range(2):
        members = rng.sample(SPACES, rng.randint(1, 3))
        symbols.append([MergeSpaceSymbol(*members), frozenset(members)])
    params = []  # name, kind, has default, type, declared space
    for i in range(rng.randint(0, 3)):
        params.append([f"p{i}", "pos", False, rng.choice([Tensor, StateDict[Tensor], float]), rand_space_decl(rng, symbols)])
    for i in range(rng.randint(0, 2)):
        params.append([f"d{i}", "pos", True, rng.choice([Tensor, float, int, str]), rng.choice([None, None, "param"])])
    if rng.random() < 0.4:
        params.append(["rest", "var", False, rng.choice([Tensor, StateDict[Tensor], float, int, str]), rand_space_decl(rng, symbols)])
    for i in range(rng.randint(0, 2)):
        has = rng.random() < 0.5
        params.append([f"k{i}", "kw", has, rng.choice([Tensor, float]), rng.choice([None, "param"]) if has else rand_space_decl(rng, symbols)])
    if not params:
        raise Skip
    used = [p[4] for p in params if isinstance(p[4], list)]
    ret = rng.choice([None, None, "space", "symbol"])
    if ret == "space":
        ret = rng.choice(SPACES)
    elif ret == "symbol":
        positional = [p[4] for p in params if isinstance(p[4], list)]
        if not positional:
            ret = rng.choice(SPACES)
        else:
            ret = rng.choice(positional)

    sig, kw_started, ann = [], False, {}
    for name, kind, has, typ, decl in params:
        if kind == "kw" and not kw_started and not any(p[1] == "var" for p in params):
            sig.append("*")
            kw_started = True
        if kind == "var":
            kw_started = True
        default = {Tensor: "1.0", float: "0.5", int: "3", str: "'s'"}.get(typ)
        sig.append(("*" if kind == "var" else "") + name + (f"={default}" if has else ""))
        ann[name] = Parameter(typ, to_arg(decl, rng))
    if rng.random() < 0.5:
        sig.append("**kwargs")
    scope = {}
    exec(f"def f({', '.join(sig)}):\n    return None", scope)
    f = scope["f"]
    ann["return"] = Return(Tensor, ret[0] if isinstance(ret, list) else ret)
    f.__annotations__ = ann
    text = f"({', '.join(sig)}) " + str({p[0]: (getattr(p[3], '__name__', str(p[3])), p[4] if not isinstance(p[4], list) else f"symbol{symbols.index(p[4])}{sorted(p[4][1])}") for p in params}) \
        + f" -> {ret if not isinstance(ret, list) else f'symbol{symbols.index(ret)}'}"
    return merge_method(f, identifier="vm_c12", register=False), params, ret, text


def allowed(p):
    """(set of allowed spaces, symbol identity or None)"""
    name, kind, has, typ, decl = p
    if decl is None:
        if has or typ in (float, int, str, bool):
            return {"param"}, None
        return set(SPACES), "default"
    if isinstance(decl, str):
        return {decl}, None
    if isinstance(decl, tuple):
        return set(decl), None
    return set(decl[1]), id(decl)


def reference(params, ret, given):
    """given: list of (param, space); returns the space of the result, or None when the call must be refused"""
    resolved = {}
    for p, space in given:
        ok, symbol = allowed(p)
        if space not in ok:
            return None
        if symbol is not None and resolved.setdefault(symbol, space) != space:
            return None
    if isinstance(ret, str):
        return ret
    if isinstance(ret, list):
        return resolved.get(id(ret))  # nothing tells the space when its *args are missing
    if "default" in resolved:
        return resolved["default"]
    kinds = {(frozenset(allowed(p)[0]), allowed(p)[1]) for p in params if p[1] != "var" or any(q is p for q, _ in given)}
    if not kinds:
        return None
    if len(kinds) == 1:
        (spaces, symbol), = kinds
        if symbol is None and len(spaces) == 1:
            return next(iter(spaces))
    raise Skip


def signature(ctx):
    rng = ctx.rng
    method, params, ret, text = make(rng)
    for _ in range(6):
        args, kwargs, given = [], {}, []
        bias = rng.choice(SPACES)

        def pick(p):
            ok = sorted(allowed(p)[0])
            s = bias if rng.random() < 0.6 and bias in ok else rng.choice(ok) if rng.random() < 0.7 else rng.choice(SPACES)
            given.append((p, s))
            return node_of(s, rng)

        omitted_pos = False
        for p in params:
            if p[1] == "pos":
                if omitted_pos or (p[2] and rng.random() < 0.6 and not any(q[1] == "var" for q in params)):
                    omitted_pos = True
                    given.append((p, "param"))
                else:
                    args.append(pick(p))
            elif p[1] == "var":
                for _ in range(rng.randint(0, 3)):
                    args.append(pick(p))
            elif p[2] and rng.random() < 0.5:
                given.append((p, "param"))
            else:
                kwargs[p[0]] = pick(p)
        try:
            want = reference(params, ret, given)
        except Skip:
            ctx.count("not judged")
            continue
        spaces = [(p[0], s) for p, s in given]
        ctx.note(signature=text, spaces=spaces)
        try:
            node = method(*args, **kwargs)
            got = node.merge_space
        except (TypeError, ValueError, RuntimeError) as e:
            ctx.check(want is None, f"a well typed call was refused: {e}", signature=text, spaces=spaces, expected=want)
            ctx.count("rejected")
        else:
            ctx.check(want is not None, f"an ill typed call was accepted, with space {got!r}", signature=text, spaces=spaces)
            ctx.check(getattr(got, "identifier", None) == want, f"the inferred merge space is {got!r}", signature=text, spaces=spaces, expected=want)
            ctx.count("accepted")
        ctx.seen("case", (text, spaces))
        ctx.sample(signature=text, spaces=spaces, result=want)


def declarations(ctx):
    """declarations that cannot be typed are refused when the method is defined"""
    rng = ctx.rng
    kind = rng.choice(["default", "kwdefault", "unknown", "return_unknown", "structural", "unannotated", "bare", "no_return", "bad_type"])
    scope = {}
    P, R = Parameter, Return
    space = rng.choice(["weight", "delta", ("weight", "param"), MergeSpaceSymbol("param", "weight")])
    try:
        if kind in ("default", "kwdefault"):
            exec("def f(a, b=1.0): pass" if kind == "default" else "def f(a, *, b=1.0): pass", scope)
            f = scope["f"]
            f.__annotations__ = {"a": P(Tensor), "b": P(Tensor, space), "return": R(Tensor)}
        else:
            exec("def f(a): pass", scope)
            f = scope["f"]
            f.__annotations__ = {
                "unknown": lambda: {"a": P(Tensor, rng.choice(["wieght", ("delta", "wieght"), "vmonspace13"])), "return": R(Tensor)},
                "return_unknown": lambda: {"a": P(Tensor), "return": R(Tensor, "wieght")},
                "structural": lambda: {"a": P(Tensor, None, "structural"), "return": R(Tensor)},
                "unannotated": lambda: rng.choice([{"return": R(Tensor)}, {"a": Tensor, "return": R(Tensor)}]),
                "bare": lambda: {"a": P, "return": R(Tensor)},
                "no_return": lambda: rng.choice([{"a": P(Tensor)}, {"a": P(Tensor), "return": R}, {"a": P(Tensor), "return": Tensor}]),
                "bad_type": lambda: {"a": P(rng.choice([list, complex, bytes])), "return": R(Tensor)},
            }[kind]()
        merge_method(f, identifier="vm_c12_bad", register=False)
    except (TypeError, ValueError, RuntimeError):
        ctx.count("bad declarations refused")
    else:
        ctx.fail(f"a method with a bad declaration was accepted ({kind})", space=str(space))
    ctx.seen("case", ("declaration", kind, str(space)))


# operation -> {argument spaces: space of the result}; everything else is refused
SAME = {(s, s): s for s in SPACES}
TABLE = {
    "weighted_sum": SAME, "slerp": SAME, "perpendicular_component": SAME, "geometric_sum": SAME, "crossover": SAME, "rotate": SAME, "clamp": SAME,
    "tensor_sum": SAME, "top_k_tensor_sum": SAME, "n_average": SAME, "geometric_median": SAME, "fallback": SAME,
    "add_difference": {("weight", "delta"): "weight"},
    "subtract": {("weight", "weight"): "delta"},
    "add_cosine_a": {("weight", "weight"): "weight"}, "add_cosine_b": {("weight", "weight"): "weight"},
    "select_max_delta": {("delta", "delta"): "delta"}, "select_max_white_delta": {("delta", "delta"): "delta"},
    "ties_sum": {("delta", "delta"): "delta"}, "ties_sum_extended": {("delta", "delta"): "delta"}, "ties_sum_with_dropout": {("delta", "delta"): "delta"},
    "dropout": {("delta", "delta"): "delta"}, "model_stock": {("delta", "delta"): "delta"},
    "train_difference_mask": {(s, s, s): "param" for s in SPACES}, "add_opposite_mask": {(s, s, s): "param" for s in SPACES},
    "add_strict_opposite_mask": {(s, s, s): "param" for s in SPACES}, "multiply_quotient": {(s, s, s): s for s in SPACES},
    "truncate_rank": {("delta",): "delta"}, "cast": {(s,): s for s in SPACES}, "exchange_ema": {(s,): s for s in SPACES},
    "copy_distribution": {(s,): s for s in SPACES}, "get_dtype": {(s,): "param" for s in SPACES}, "get_device": {(s,): "param" for s in SPACES},
}
WRAPPED = {
    "operator+": (lambda a, b: a + b, {("weight", "delta"): "weight", ("delta", "weight"): "weight"}),
    "operator-": (lambda a, b: a - b, {("weight", "weight"): "delta"}),
    "operator|": (lambda a, b: a | b, SAME),
    "add_difference/2": (lambda a, b: sd_mecha.add_difference(a, b), {("weight", "delta"): "weight"}),
    "add_difference/3": (lambda a, b, c: sd_mecha.add_difference(a, b, c), {("weight",) * 3: "weight"}),
    "add_difference/3c": (lambda a, b, c: sd_mecha.add_difference(a, b, c, clamp_to_ab=True), {("weight",) * 3: "weight"}),
    "add_perpendicular": (lambda a, b, c: sd_mecha.add_perpendicular(a, b, c), {("weight",) * 3: "weight"}),
    "copy_region/3": (lambda a, b, c: sd_mecha.copy_region(a, b, c), {("weight",) * 3: "weight"}),
    "rotate/3": (lambda a, b, c: sd_mecha.rotate(a, b, c), {("weight",) * 3: "weight"}),
    "dropout/w": (lambda a, b, c: sd_mecha.dropout(a, b, c), {("weight",) * 3: "weight"}),
    "ties/w": (lambda a, b, c: sd_mecha.add_difference_ties(a, b, c), {("weight", x, y): "weight" for x in ("weight", "delta") for y in ("weight", "delta")}),
    "ties_ext/w": (lambda a, b, c: sd_mecha.add_difference_ties_extended(a, b, c), {("weight", x, y): "weight" for x in ("weight", "delta") for y in ("weight", "delta")}),
    "dare/w": (lambda a, b, c: sd_mecha.ties_with_dare(a, b, c), {("weight", x, y): "weight" for x in ("weight", "delta") for y in ("weight", "delta")}),
    "stock/w": (lambda a, b, c: sd_mecha.n_model_stock(a, b, c), {("weight", x, y): "weight" for x in ("weight", "delta") for y in ("weight", "delta")}),
    "pick": (lambda a: sd_mecha.pick_component(a, "main"), {(s,): s for s in SPACES}),
    "omit": (lambda a: sd_mecha.omit_component(a, "main"), {(s,): s for s in SPACES}),
    "to": (lambda a: a.to(dtype=torch.float16), {(s,): s for s in SPACES}),
    "dict": (lambda a, b: sd_mecha.literal({"x": a, "y": b}), SAME),
    "ws alpha": (lambda a: sd_mecha.weighted_sum(sd_mecha.model("x"), sd_mecha.model("y"), a), {("param",): "weight"}),
}


def builtins(ctx):
    import itertools
    rng = ctx.rng
    for name, table in list(TABLE.items()) + [(k, v[1]) for k, v in WRAPPED.items()]:
        fn = WRAPPED[name][0] if name in WRAPPED else merge_methods.resolve(name)
        arity = len(next(iter(table)))
        for spaces in itertools.product(SPACES, repeat=arity):
            want = table.get(spaces)
            nodes = [node_of(s, rng) for s in spaces]
            if name == "dict" or name in ("pick", "omit"):
                nodes = [sd_mecha.model("x.safetensors", config=lab.A.identifier, merge_space=s) for s in spaces]
            try:
                got = fn(*nodes).merge_space.identifier
            except (TypeError, ValueError, RuntimeError) as e:
                ctx.check(want is None, f"{name} refused the spaces {spaces}: {e}", expected=want)
            else:
                ctx.check(got == want, f"{name} over {spaces} gave space {got!r}", expected=want)
            ctx.count("builtin combinations")
            ctx.seen("case", (name, spaces))


def registry(ctx):
    """spaces are found under the name they were registered with, also those registered late"""
    rng = ctx.rng
    if len(merge_spaces.get_all()) > 300:
        raise Skip  # spaces cannot be taken back
    name = f"vmonspace12x{rng.getrandbits(60):x}"
    scope = {}
    exec("def f(a): return a", scope)
    scope["f"].__annotations__ = {"a": Parameter(Tensor), "return": Return(Tensor)}
    before = merge_method(scope["f"], identifier="vm_c12_before", register=False)
    for call in (lambda: merge_spaces.resolve(name), lambda: sd_mecha.model(STATE, merge_space=name), lambda: Parameter(Tensor, name), lambda: Return(Tensor, name)):
        try:
            call()
        except ValueError as e:
            ctx.check(name in str(e), f"the error does not name the unknown space: {e}")
        else:
            ctx.fail("a space that was not registered is accepted")
    known = {s.identifier for s in merge_spaces.get_all()}
    merge_spaces.register_merge_space(name)
    taken = rng.choice([name, *SPACES])
    try:
        merge_spaces.register_merge_space(taken)
    except ValueError as e:
        ctx.check(taken in str(e), f"the error does not name the taken space: {e}")
    else:
        ctx.fail(f"the space {taken!r} was registered twice")
    ctx.check({s.identifier for s in merge_spaces.get_all()} == known | {name}, "the registered spaces are not those that were registered")
    ctx.check(merge_spaces.resolve(name).identifier == name, "another space is found under the name")
    node = sd_mecha.model(STATE, config=lab.A.identifier, merge_space=name)
    exec("def g(a): return a", scope)
    scope["g"].__annotations__ = {"a": Parameter(Tensor, rng.choice([name, ("weight", name), MergeSpaceSymbol(name, "delta")])), "return": Return(Tensor, "weight")}
    after = merge_method(scope["g"], identifier="vm_c12_after", register=False)
    for what, call in {"undeclared": lambda: before(node), "fallback": lambda: node | node, "cast": lambda: node.to(dtype=torch.float16)}.items():
        ctx.check(call().merge_space.identifier == name, f"{what}: the space of the result is not the registered one")
    out = merge(after(before(node)), threads=0)
    ctx.check(len(out) > 0, "the merge gave nothing")
    for call in (lambda: merge(before(node), threads=0), lambda: after(sd_mecha.model(STATE, config=lab.A.identifier, merge_space="param")), lambda: node + node, lambda: sd_mecha.weighted_sum(node, sd_mecha.model(STATE, config=lab.A.identifier))):
        try:
            call()
        except (TypeError, ValueError):
            pass
        else:
            ctx.fail("an input in another space was accepted")
    ctx.count("spaces registered")
    ctx.seen("case", ("registry", taken == name, after.identifier))


def strict(ctx):
    """only weights are saved, unless asked otherwise"""
    rng = ctx.rng
    space = rng.choice(SPACES)
    # param space: a mask
    m = lambda s: sd_mecha.model(STATE, config=lab.A.identifier, merge_space=s)
    recipe = {
        "weight": lambda: rng.choice([m("weight"), m("weight") + m("delta")]),
        "delta": lambda: rng.choice([m("delta"), m("weight") - m("weight")]),
        "param": lambda: rng.choice([m("param"), sd_mecha.train_difference_mask(m("weight"), m("weight"), m("weight"))]),
    }.get(space, lambda: m(space))()
    kw = rng.choice([{}, {"strict_weight_space": True}, {"strict_weight_space": False}])
    refused = space != "weight" and kw.get("strict_weight_space", True)
    try:
        out = merge(recipe, threads=0, **kw)
    except ValueError as e:
        ctx.check(refused, f"a merge in {space} space was refused: {e}", **kw)
        ctx.check(space in str(e), f"the error does not name the space: {e}")
        ctx.count("strict rejections")
    else:
        ctx.check(not refused, f"a recipe in {space} space was merged as weights")
        ctx.check(len(out) > 0, "the merge gave nothing")
    ctx.seen("case", ("strict", space, str(kw)))


DIRECTED = [("builtins", builtins)]
SCENARIOS = [("signature", signature, 12), ("declarations", declarations, 1), ("registry", registry, 1), ("strict", strict, 1)]
