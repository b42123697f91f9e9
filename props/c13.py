"""convert() finds a shortest chain of registered conversions, or says that there is none."""
import collections
import pathlib
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from sd_mecha.recipe_nodes import MergeRecipeNode
from torch import Tensor
from mon import lab
from mon.util import merge, write_safetensors

ID = "C13"
RULE = ("random graphs of configs and registered conversions (cycles, parallel conversions, dead ends, unreachable and isolated configs), each conversion "
        "with a recognizable effect; every ordered pair is converted from nodes, files (relative ones too), dictionaries and whole recipes to targets given by name, "
        "config or node; chain length is compared with a breadth first search, the merged result with the composition of the chain's effects. "
        "dictionaries that fit several configs to different degrees, with and without conversions. Distinct by (graph, source, target, ways to give them)")
ASSUMPTIONS = ["any of several shortest chains may be chosen"]
BUDGET = {"quick": (100000, 14), "thorough": (10**7, 400)}
REQUIRED = {"complete dictionaries of several configs": 20, "conversions": 300, "chains of two or more": 60, "refused": 60, "merged results": 200, "dictionaries that fit several configs": 60, "dictionaries whose best config has no conversion": 20,
            "dictionaries that fit a config with and one without conversion equally": 15}

N_KEYS = 3


def build(rng, tag):
    n = rng.randint(2, 7)
    names = [f"vmc13{tag}{chr(97 + i)}-x" for i in range(n)]
    for i, name in enumerate(names):
        keys = "\n".join(f"    n{tag}_{i}.k{j}: {{shape: [2], dtype: float32}}" for j in range(N_KEYS))
        config = model_configs.from_yaml(f"identifier: {name}\ncomponents:\n  main:\n{keys}\n")
        rng.choice([model_configs.register, model_configs.register_aux])(config)
    edges = []
    density = rng.choice([0.15, 0.3, 0.5])
    for i in range(n):
        for j in range(n):
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < density and (i != j or rng.random() < 0.3):
                    edges.append((i, j))
    if rng.random() < 0.5:  # make sure that there is a long chain
        order = list(range(n))
        rng.shuffle(order)
        edges += list(zip(order, order[1:]))
    rng.shuffle(edges)
    effects = {}
    for e, (i, j) in enumerate(edges):
        register_conversion(names, tag, e, i, j)
        effects[f"vm_c13_{tag}_{e}"] = (i, j, e)
    return names, edges, effects


def register_conversion(names, tag, e, i, j):
    def fn(x, **kwargs):
        k = kwargs["key"]
        assert k.startswith(f"n{tag}_{j}."), k
        return x[f"n{tag}_{i}.{k.split('.')[1]}"] * 2 + (e + 1)
    fn.__annotations__ = {"x": Parameter(StateDict[Tensor], model_config=names[i]), "return": Return(Tensor, model_config=names[j])}
    merge_method(fn, identifier=f"vm_c13_{tag}_{e}", is_conversion=True)


def distances(n, edges, start):
    out = collections.defaultdict(set)
    for i, j in edges:
        out[i].add(j)
    dist, todo = {start: 0}, collections.deque([start])
    while todo:
        x = todo.popleft()
        for y in out[x]:
            if y not in dist:
                dist[y] = dist[x] + 1
                todo.append(y)
    return dist


def chain_of(node, source):
    chain = []
    while node is not source and isinstance(node, MergeRecipeNode) and node.merge_method.identifier.startswith("vm_c13_"):
        chain.append(node.merge_method.identifier)
        node = node.args[0]
    return chain[::-1], node


def graph_case(ctx):
    ctx_seed = ctx.rng.getrandbits(32)
    tmp = ctx.tmpdir()
    kind, value = ctx.fork(graph_child, ctx, ctx_seed, tmp)
    if kind == "exc":
        ctx.fail(f"unexpected {value[0]}: {value[1]}", traceback=value[2])
    ctx.check(kind == "ok", f"the conversion process ended with {kind} {value}")


def graph_child(ctx, seed, tmp):
    import random
    rng = random.Random(seed)
    tag = f"{seed:x}"
    names, edges, effects = build(rng, tag)
    n = len(names)
    desc = {"edges": edges, "configs": n}
    for a in range(n):
        dist = distances(n, edges, a)
        values = {f"n{tag}_{a}.k{j}": torch.tensor([j + 1.0, -j], dtype=torch.float64) for j in range(N_KEYS)}
        for b in rng.sample(range(n), min(n, 4)):
            how = rng.choice(["node", "node", "dict", "file", "inferred", "relative", "recipe"])
            target_how = rng.choice(["name", "config", "node", "file_node"])
            kw, source = {}, None
            if how == "node":
                source = sd_mecha.model(dict(values), config=names[a])
            elif how == "inferred":
                source = sd_mecha.model(dict(values))
            elif how == "dict":
                source = dict(values)
            elif how in ("file", "relative"):
                path = tmp / f"{a}_{b}.safetensors"
                write_safetensors(path, values)
                if how == "relative":
                    kw["model_dirs"] = [tmp / "nowhere", tmp]
                    path = pathlib.Path(path.name)
                source = sd_mecha.model(rng.choice([str, lambda p: p])(path), config=rng.choice([None, names[a]]))
            else:
                m = sd_mecha.model(dict(values), config=names[a])
                source = sd_mecha.weighted_sum(m, sd_mecha.model(dict(values), config=names[a]), 0.5)
            target = names[b]
            if target_how == "config":
                target = model_configs.resolve(names[b])
            elif target_how == "node":
                target = sd_mecha.model({f"n{tag}_{b}.k{j}": torch.zeros(2) for j in range(N_KEYS)}, config=rng.choice([None, "infer", names[b]]))
            elif target_how == "file_node":
                p = tmp / f"t{a}_{b}.safetensors"
                write_safetensors(p, {f"n{tag}_{b}.k{j}": torch.zeros(2) for j in range(N_KEYS)})
                target = sd_mecha.model(p, config=rng.choice([None, "infer", names[b]]))
            case = desc | {"source": a, "target": b, "from": how, "to": target_how}
            try:
                res = sd_mecha.convert(source, target, **kw)
            except ValueError as e:
                ctx.check(b not in dist, f"a conversion exists but was refused: {e}", **case)
                ctx.count("refused")
                ctx.seen("case", (tuple(edges), a, b, how, target_how))
                continue
            ctx.check(b in dist, "a conversion was found although there is none", result=str(type(res)), **case)
            chain, origin = chain_of(res, source)
            ctx.check(len(chain) == dist[b], f"the chain {chain} has {len(chain)} steps, the shortest has {dist[b]}", **case)
            at = a
            for method in chain:
                i, j, _ = effects[method]
                ctx.check(i == at, f"the chain {chain} is not connected", **case)
                at = j
            ctx.check(at == b, f"the chain {chain} ends at {at}", **case)
            ctx.count("conversions")
            if len(chain) >= 2:
                ctx.count("chains of two or more")
            out = merge(res, threads=0, output_dtype=torch.float64, strict_weight_space=how != "dict", **kw)
            expected = {f"n{tag}_{b}.k{j}": values[f"n{tag}_{a}.k{j}"] for j in range(N_KEYS)}
            for method in chain:
                expected = {k: v * 2 + (effects[method][2] + 1) for k, v in expected.items()}
            ctx.check(set(out) == set(expected), f"the converted model has the keys {sorted(out)}", **case)
            for k in expected:
                ctx.check(torch.equal(out[k], expected[k]), f"the converted value of {k!r} is {out[k].tolist()}, expected {expected[k].tolist()}", **case)
            ctx.count("merged results")
            ctx.seen("case", (tuple(edges), a, b, how, target_how))
            ctx.seen("chains", tuple(effects[m][:2] for m in chain))
    ctx.sample(**desc)


def dictionary_case(ctx):
    """dictionaries whose keys fit several configs to different degrees"""
    seed = ctx.rng.getrandbits(32)
    kind, value = ctx.fork(dictionary_child, ctx, seed)
    if kind == "exc":
        ctx.fail(f"unexpected {value[0]}: {value[1]}", traceback=value[2])
    ctx.check(kind == "ok", f"the conversion process ended with {kind} {value}")


def dictionary_child(ctx, seed):
    import random
    rng = random.Random(seed)
    tag = f"{seed:x}"
    pool = [f"d{tag}.{i}" for i in range(12)]
    n = rng.randint(2, 5)
    names = [f"vmc13d{tag}{chr(97 + i)}-x" for i in range(n + 2)]  # the last two have keys of their own
    held = []
    for i in range(n):
        held.append(rng.sample(pool, rng.randint(1, 12)))
        if i and rng.random() < 0.4:
            held[i] = list(held[i - 1])
    held += [[f"t{tag}.{j}.{i}" for i in range(2)] for j in range(2)]
    for i in rng.sample(range(n + 2), n + 2):
        keys = "\n".join(f"    {k}: {{shape: [2], dtype: float32}}" for k in held[i])
        rng.choice([model_configs.register, model_configs.register_aux])(model_configs.from_yaml(f"identifier: {names[i]}\ncomponents:\n  main:\n{keys}\n"))
    edges = sorted({(i, rng.choice([n, n + 1])) for i in range(n) if rng.random() < 0.6} | ({(n, n + 1)} if rng.random() < 0.5 else set()))
    for e, (i, j) in enumerate(edges):
        def fn(x, **kwargs):
            return next(iter(x.values()))
        fn.__annotations__ = {"x": Parameter(StateDict[Tensor], model_config=names[i]), "return": Return(Tensor, model_config=names[j])}
        merge_method(fn, identifier=f"vm_c13_{tag}_{e}", is_conversion=True)
    for _ in range(4):
        if rng.random() < 0.5:
            keys = rng.sample(pool, rng.randint(1, 9)) + [f"nobody{tag}"]
        else:
            keys = list(rng.choice(held[:n]))  # exactly the keys of a config
            if len(keys) > 10:
                del keys[rng.randrange(len(keys))]
        value = rng.choice([lambda k: 0.5, lambda k: torch.ones(2)])
        source = {k: value(k) for k in keys}
        target = rng.choice([n, n + 1])
        fits = {i: len(set(keys) & set(held[i])) for i in range(n)}
        fits = {i: m for i, m in fits.items() if m >= len(keys) * 0.1 and m}
        dist = {i: distances(n + 2, edges, i) for i in fits}
        able = {i: m for i, m in fits.items() if target in dist[i]}
        best = {i for i, m in able.items() if m == max(able.values())}
        case = {"edges": edges, "matched keys": fits, "target": target, "configs": n}
        try:
            res = sd_mecha.convert(source, names[target])
        except ValueError as e:
            ctx.check(not able, f"a conversion of the dictionary exists but was refused: {e}", **case)
            ctx.count("dictionaries refused")
        else:
            ctx.check(bool(able), "a dictionary was converted although none of its configs can be", **case)
            chain, _ = chain_of(res, source)
            used = [edges[int(m.rsplit("_", 1)[1])] for m in chain]
            ctx.check(bool(used) and used[0][0] in best, f"the dictionary was converted from config {used[:1]}, expected one of {sorted(best)}", **case)
            ctx.check(len(used) == dist[used[0][0]][target], f"the chain {used} is not the shortest", **case)
            ctx.count("complete dictionaries of several configs", int(sum(m == len(keys) for m in fits.values()) > 1))
            ctx.count("dictionaries that fit several configs", int(len(fits) > 1))
            ctx.count("dictionaries whose best config has no conversion", int(max(able.values()) < max(fits.values())))
            ctx.count("dictionaries that fit a config with and one without conversion equally", int(any(m == max(able.values()) and i not in able for i, m in fits.items())))
        ctx.seen("case", ("dict", sorted(fits.items()), edges, target))


EXPECTED_EDGES = {
    ("sdxl-kohya", "sdxl-sgm"), ("sdxl-diffusers_unet_only", "sdxl-sgm"), ("sd1-kohya", "sd1-ldm"), ("flux-flux", "flux-flux_diffuser_only"),
    ("flux-flux_diffuser_only", "flux-flux"), ("sdxl-supermerger_blocks", "sdxl-sgm"), ("sd1-supermerger_blocks", "sd1-ldm"),
}
BASES = ["sdxl-supermerger_blocks", "sdxl-kohya", "sdxl-diffusers_unet_only", "sd1-kohya", "flux-flux", "sd1-supermerger_blocks", "flux-flux_diffuser_only", "sd3-comfyui", "sd1-ldm", "sdxl-sgm"]
for b in BASES:
    EXPECTED_EDGES |= {(f"{b}_lycoris_lora", b), (f"{b}_kohya_lora", b)}


def builtins(ctx):
    """every documented conversion between the builtin configs exists"""
    names = BASES + [f"{b}_{x}_lora" for b in BASES for x in ("lycoris", "kohya")]
    index = {n: i for i, n in enumerate(names)}
    edges = [(index[a], index[b]) for a, b in EXPECTED_EDGES]
    for a in names:
        dist = distances(len(names), edges, index[a])
        key = next(iter(model_configs.resolve(a).keys()))
        node = sd_mecha.model({key: torch.zeros(1)}, config=a)
        for b in names:
            try:
                res = sd_mecha.convert(node, b)
            except ValueError:
                ctx.check(index[b] not in dist, f"{a} cannot be converted to {b}")
                ctx.count("refused")
            else:
                n = 0
                while isinstance(res, MergeRecipeNode):
                    res, n = res.args[0], n + 1
                ctx.check(index[b] in dist and n <= dist[index[b]], f"converting {a} to {b} takes {n} steps, expected {dist.get(index[b])}")
                ctx.count("builtin conversions")
            ctx.seen("case", (a, b))


def structural(ctx):
    """models without a config cannot be converted"""
    rng = ctx.rng
    d = {f"zz.{rng.getrandbits(20)}.{i}": torch.ones(2) for i in range(3)}
    for source in (sd_mecha.model(d), d, sd_mecha.n_average(sd_mecha.model(d), sd_mecha.model(d))):
        try:
            sd_mecha.convert(source, rng.choice(BASES))
        except ValueError:
            ctx.count("structural refused")
        else:
            ctx.fail("a model of unknown config was converted", keys=sorted(d))


DIRECTED = [("builtins", builtins)]
SCENARIOS = [("graph", graph_case, 9), ("dictionary", dictionary_case, 5), ("structural", structural, 1)]
