"""Model configs never mix: a recipe is accepted exactly when the configs of its inputs agree with what its methods declare."""
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, StateDictKeyError, merge_method
from sd_mecha.extensions import model_configs
from torch import Tensor
from mon import lab
from mon.core import Skip
from mon.util import merge, write_safetensors

ID = "C32"
RULE = ("random recipes over methods with declared and undeclared parameter and return configs (positional, variadic, keyword-only; whole models, tensors and numbers) and models, "
        "files, dictionaries of recipes and per key numbers, each with an explicit config, none or 'infer', over twin configs with the same keys, other configs, and unknown keys; whether each "
        "merge is accepted, the config of every node and of every model that a method receives, and the merged keys and values are compared with an independent statement of the rule. "
        "Distinct by (declarations, configs and keys of the inputs)")
ASSUMPTIONS = ["a model whose keys fit several configs equally well, in a place that declares none of them, is not judged",
               "a recipe whose result has no config that anything determines is not judged",
               "models that have all the keys of one of several configs that share their keys are not judged (inference stops early)"]
BUDGET = {"quick": (1000000, 12), "thorough": (10**8, 300)}
REQUIRED = {"merged": 300, "refused calls": 20, "calls without a config": 100, "refused merges": 200, "values compared": 1000, "configs received": 250, "crossings": 40, "dictionaries of recipes": 60, "inferred": 150}

N = 12
PREFIX = {"vmonp-one": "p", "vmonp-two": "p", "vmonq-one": "q"}
P, P2, Q = PREFIX
STRUCT = "structural"
lab.register(*[lab.Spec(c, {"main": {f"{p}.{i}.w": {"shape": (2,), "dtype": "float32", "optional": True} for i in range(N)}}) for c, p in PREFIX.items()])
SEEN = []


class Refused(Exception):
    """the reference refuses the recipe"""


class Leaf:
    def __init__(self, rng, tmp, tag, dict_of=None):
        self.tag, self.dict_of = tag, dict_of
        self.keys = rng.choice("ppqqqqsm")
        self.config = rng.choice([None, None, "infer", "own", "own", "own", "own", "any"])
        if self.keys == "s":
            self.config = rng.choice([None, None, None, "infer"])
        if self.config == "own":
            self.config = rng.choice([P, P2]) if self.keys == "p" else Q
        elif self.config == "any":
            self.config = rng.choice([P, P2, Q])
        kinds = {"m": "q"}
        main = sorted(rng.sample(range(N), rng.randint(7, 9)))
        self.tensors = {f"{kinds.get(self.keys, self.keys)}.{i}.w": torch.full((2,), float(tag * 100 + i + 1), dtype=torch.float64) for i in main}
        if self.keys == "m":
            self.tensors |= {f"p.{i}.w": torch.full((2,), float(tag * 100 + 50 + i), dtype=torch.float64) for i in rng.sample(range(N), 3)}
        kw = {} if self.config is None else {"config": self.config}
        if rng.random() < 0.4:
            path = write_safetensors(tmp / f"m{tag}.safetensors", self.tensors)
            self.node = sd_mecha.model(path, **kw)
        else:
            self.node = sd_mecha.model(dict(self.tensors), **kw)
        self.text = f"{self.keys}:{self.config}"

    def known(self):
        return None if self.config == "infer" else self.config

    def resolve(self, param):
        self.cfg = self._resolve(param)
        return self.cfg

    def _resolve(self, param):
        if self.known() is not None:
            return self.config
        if self.keys in "pm" and param in (P, P2):
            return param
        if self.keys in "qm":
            return Q
        if self.keys == "p":
            raise Skip("ambiguous")
        if self.config == "infer":
            raise Refused("cannot be inferred")
        return STRUCT

    def leaves(self):
        yield self

    def value(self, name, common):
        if self.cfg == STRUCT and name not in common:
            return None
        t = self.tensors.get(name)
        return None if t is None else t[0].item()


class Numbers:
    """number, or numbers per key"""
    def __init__(self, rng):
        self.keys = rng.choice([None, None, "p", "q", "q"])
        if self.keys is None:
            self.number = float(rng.randint(-9, 9))
            self.node = self.number
        else:
            self.numbers = {f"{self.keys}.{i}.w": float(rng.randint(-9, 9)) for i in rng.sample(range(N), rng.randint(2, 8))}
            self.node = dict(self.numbers)
        self.text = f"n:{self.keys}"

    def known(self):
        return None

    def resolve(self, param):
        if self.keys is None:
            self.cfg = None
        elif self.keys == "q":
            self.cfg = Q
        elif param in (P, P2):
            self.cfg = param
        else:
            raise Skip("ambiguous")
        return self.cfg

    def leaves(self):
        return ()

    def value(self, name, common):
        return self.number if self.keys is None else self.numbers.get(name)


class Recipes:
    """dictionary of recipes, all with an explicit config"""
    def __init__(self, rng, tmp, counter, ctx):
        ctx.count("dictionaries of recipes")
        self.children = {}
        prefix = rng.choice("pq")
        first = None
        for i in rng.sample(range(N), rng.randint(1, 3)):
            leaf = Leaf(rng, tmp, counter())
            while leaf.known() is None or first is not None and leaf.config != first and rng.random() < 0.8:
                leaf = Leaf(rng, tmp, counter())
            first = first or leaf.config
            self.children[f"{prefix}.{i}.w"] = leaf
        configs = [v.config for v in self.children.values()]
        self.text = f"d:{prefix}:{sorted(configs)}"
        self.node = {k: v.node for k, v in self.children.items()}
        self.mixed = len(set(configs)) > 1
        self.config = configs[0]

    def known(self):
        if self.mixed:
            raise Refused("dictionary of several configs")
        return self.config

    def resolve(self, param):
        for child in self.children.values():
            child.resolve(param)
        self.cfg = self.config
        return self.cfg

    def leaves(self):
        return ()

    def value(self, name, common):
        return self.children[name].value(name, common) if name in self.children else None


class Method:
    def __init__(self, ctx, tmp, counter, depth):
        self.rng = rng = ctx.rng
        self.index = counter()
        n = rng.randint(1, 3)
        style = rng.random()
        self.ret = rng.choice([None, None, None, P, P2, Q]) if style < 0.6 else None
        declare = rng.choice([0, 0.3, 0.9])
        self.careless = rng.choice([0, 0.1, 0.7, 1])
        self.params = []  # (name, kind, interface, config)
        var_at = rng.choice([None, None, n - 1])
        for i in range(n):
            interface = rng.choice(["sd", "sd", "t"])
            config = rng.choice([P, P2, Q]) if rng.random() < declare else None
            self.params.append((f"x{i}", "var" if i == var_at else "pos", interface, config))
        if rng.random() < 0.35:
            self.params.append(("y", "kw", rng.choice(["sd", "t"]), rng.choice([None, P, Q])))
        if rng.random() < 0.3:
            self.params.append(("w", "kw", "n", rng.choice([None, None, None, P, Q])))
        if self.ret is None and all(p[3] is not None for p in self.params):
            self.ret = rng.choice([P, P2, Q])
        self.declare()
        wish = rng.choice([None, P, Q, Q])
        self.args = []  # (parameter, argument)
        for p in self.params:
            for _ in range(rng.randint(0 if len(self.args) else 1, 3) if p[1] == "var" else 1):
                self.args.append((p, self.argument(ctx, tmp, counter, depth, p, wish)))
        self.text = f"{self.ret}{self.params}({','.join(a.text for _, a in self.args)})"

    def argument(self, ctx, tmp, counter, depth, p, wish):
        rng = ctx.rng
        if p[2] == "n":
            return Numbers(rng)
        best = None
        for _ in range(6):  # mostly arguments that fit
            if depth and rng.random() < 0.4:
                best = Method(ctx, tmp, counter, depth - 1)
            elif rng.random() < 0.1:
                best = Recipes(rng, tmp, counter, ctx)
            else:
                best = Leaf(rng, tmp, counter())
            try:
                known = best.known()
            except Refused:
                known = ...
            if known in (None, p[3] or self.ret or wish) or rng.random() < self.careless:
                break
        return best

    def either(self, config):
        """configs are given by name or as such"""
        return model_configs.resolve(config) if config is not None and self.rng.random() < 0.3 else config

    def declare(self):
        types = {"sd": StateDict[Tensor], "t": Tensor, "n": float}
        annotations, parts, star = {}, [], False
        for name, kind, interface, config in self.params:
            space = {"merge_space": "param"} if interface == "n" else {}
            annotations[name] = Parameter(types[interface], model_config=self.either(config), **space)
            if kind == "var":
                star = True
            elif kind == "kw" and not star:
                star = True
                parts.append("*")
            parts.append(f"*{name}" if kind == "var" else name)
        annotations["return"] = Return(Tensor, model_config=self.either(self.ret))
        scope = {"body": self.body}
        names = "".join(f"*{p[0]}, " if p[1] == "var" else f"{p[0]}, " for p in self.params)
        exec(f"def f({', '.join(parts)}, **kwargs):\n    return body([{names}], kwargs['key'])", scope)
        scope["f"].__annotations__ = annotations
        self.method = merge_method(register=False)(scope["f"])

    def body(self, args, key):
        index = key.split(".")[1]
        interfaces = [p[2] for p, _ in self.args]
        total = 0
        for i, (x, interface) in enumerate(zip(args, interfaces)):
            if interface == "sd":
                SEEN.append((self.index, i, x.model_config.identifier))
                name = next((k for k in x.model_config.keys() if k.split(".")[1] == index), None)
                if name is None:
                    raise StateDictKeyError(key)
                x = x[name]
            total = total + (i + 1) * x
        return total

    def call(self):
        args = [a.node for p, a in self.args if p[1] != "kw"]
        return self.method(*args, **{p[0]: a.node for p, a in self.args if p[1] == "kw"})

    def agree(self, configs):
        """the config of the result, given those of the arguments"""
        result = self.ret
        for (p, _), config in zip(self.args, configs):
            if config is None:
                continue
            want = p[3] or result
            if want is None:
                result = want = config
            if want != config:
                raise Refused(f"{want} expected, {config} given")
        return result

    def known(self):
        return self.agree([a.known() for _, a in self.args])

    def build(self, ctx):
        """builds the recipe bottom up; stops where the reference refuses"""
        for _, a in self.args:
            if isinstance(a, Method):
                a.build(ctx)
        try:
            expected = self.known()
        except Refused as e:
            try:
                self.node = self.call()
            except (ValueError, RuntimeError):
                ctx.count("refused calls")
                raise e from None
            try:
                config = self.node.model_config
            except (ValueError, RuntimeError):
                ctx.count("calls without a config")
                return
            ctx.fail(f"the config of a recipe that mixes configs is {config}: {e}", recipe=self.text)
        try:
            self.node = self.call()
        except Exception as e:
            ctx.fail(f"a call is refused although its configs agree: {type(e).__name__}: {e}", recipe=self.text)
        config = self.node.model_config
        got = None if config is None else config.identifier
        ctx.check(got == expected or expected is None and got == "infer", "the config of a recipe is not the one that its method and inputs determine", got=got, expected=expected, recipe=self.text)

    def resolve(self, param):
        configs = [a.resolve(p[3] or self.ret or param) for p, a in self.args]
        self.cfg = self.agree(configs)
        if self.cfg is None:
            raise Skip("nothing determines the config of the result")
        return self.cfg

    def leaves(self):
        for _, a in self.args:
            yield from a.leaves()

    def all(self):
        yield self
        for _, a in self.args:
            if isinstance(a, Method):
                yield from a.all()

    def value(self, name, common):
        index = name.split(".")[1]
        total = 0
        for i, (p, a) in enumerate(self.args):
            at = name
            if p[2] == "sd":
                at = f"{PREFIX.get(a.cfg, 's')}.{index}.w"
            v = a.value(at, common)
            if v is None:
                return None
            total += (i + 1) * v
        return total


def recipes(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    numbers = iter(range(1, 10**6))
    root = Method(ctx, tmp, lambda: next(numbers), rng.choice([0, 0, 1, 2]))
    try:
        root.build(ctx)
    except Refused:
        ctx.seen("case", ("call", root.text))
        return
    refusal = None
    try:
        root.known()
        config = root.resolve(None)
    except Refused as e:
        refusal = e
    except Skip:
        ctx.count("ambiguous")
        return
    SEEN.clear()
    before = {"sentinel": torch.ones(1)}
    output = dict(before)
    kw = {"strict_weight_space": False, "threads": rng.choice([0, 0, 2]), "output_dtype": torch.float64, "merge_dtype": torch.float64, "output": output}
    if refusal is not None:
        try:
            merge(root.node, **kw)
        except (ValueError, RuntimeError):
            ctx.count("refused merges")
            ctx.check(set(output) == set(before), "a merge that mixes configs was refused after it had written something", recipe=root.text)
            ctx.check(not SEEN, "a merge that mixes configs was refused after it had begun", recipe=root.text)
            ctx.seen("case", ("merge", root.text))
            ctx.sample(recipe=root.text, refused=str(refusal))
            return
        ctx.fail(f"a merge that mixes configs is accepted: {refusal}", recipe=root.text)
    structs = [set(leaf.tensors) for leaf in root.leaves() if leaf.cfg == STRUCT]
    common = set.intersection(*structs) if structs else set()
    try:
        out = merge(root.node, **kw)
    except Exception as e:
        ctx.fail(f"a merge is refused although its configs agree: {type(e).__name__}: {e}", recipe=root.text)
    out.pop("sentinel")
    ctx.count("merged")
    ctx.count("inferred", sum(leaf.known() is None for leaf in root.leaves()))
    names = sorted(common) if config == STRUCT else [f"{PREFIX[config]}.{i}.w" for i in range(N)]
    want = {k: v for k in names for v in [root.value(k, common)] if v is not None}
    ctx.check(set(out) == set(want), "the merged keys are not those of the config of the recipe", recipe=root.text, config=config,
              extra=sorted(set(out) - set(want))[:4], missing=sorted(set(want) - set(out))[:4])
    for k, v in want.items():
        ctx.check(out[k].tolist() == [v, v], f"wrong value for {k!r}", got=out[k].tolist(), want=v, recipe=root.text)
        ctx.count("values compared")
    configs = {m.index: [a.cfg for _, a in m.args] for m in root.all()}
    crossing = any(p[2] == "sd" and a.cfg != m.cfg for m in root.all() for p, a in m.args)
    ctx.count("crossings", int(crossing))
    for method, i, got in set(SEEN):
        ctx.count("configs received")
        ctx.check(got == configs[method][i], "a method received a model under another config than its own", got=got, want=configs[method][i], recipe=root.text)
    if want:
        ctx.seen("case", ("merge", root.text))
        ctx.sample(recipe=root.text, config=config, keys=sorted(want)[:4])


SCENARIOS = [("recipes", recipes, 1)]
# end
