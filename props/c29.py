"""Independent operations may run at the same time: each gives what it gives alone."""
import pathlib
import random
import threading
import torch
import sd_mecha
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from torch import Tensor
from mon import lab, sched, dag
from mon.util import merge, raw, write_safetensors, read_safetensors, rand_tensor

ID = "C29"
RULE = ("2 to 6 threads each run several operations (merges of recipes built for that thread, over files, tensors, configs and methods that all threads share, with worker threads of their own; "
        "conversions, inference of configs, models without config, serialization, YAML, saving with recipe, operations that fail) with random delays injected at source lines; each result, file and error is compared "
        "with that of the same operation alone. Distinct by (operations of all threads)")
ASSUMPTIONS = ["recipe nodes are not shared: a node holds the state of the operation that uses it", "merge methods are deterministic", "CPython's interpreter lock"]
BUDGET = {"quick": (100000, 16), "thorough": (10**7, 600)}
REQUIRED = {"operations compared": 500, "concurrent runs": 40, "injected delays": 500, "operations that overlap": 100}

lab.register(lab.A, lab.B)
A_KEYS, B_KEYS = list(lab.A.keys), list(lab.B.keys)


@merge_method(is_conversion=True)
def vm29_a_to_b(x: Parameter(StateDict[Tensor], model_config=lab.A.identifier), **kwargs) -> Return(Tensor, model_config=lab.B.identifier):
    return x[A_KEYS[B_KEYS.index(kwargs["key"])]] + 1


class Env:
    """what all threads share"""
    def __init__(self, rng, tmp):
        self.tmp, self.problems = tmp, []
        self.files, self.states = [], []
        for i in range(3):
            stored, _ = lab.rand_state(rng, lab.A, p_missing=rng.choice([0, 0, 0.2]), dtype=torch.float32)
            path = tmp / f"in{i}.safetensors"
            write_safetensors(path, stored)
            self.files.append(path)
            stored, _ = lab.rand_state(rng, lab.A, dtype=torch.float32)
            self.states.append(stored)
        self.structural = []
        for i in range(2):
            path = tmp / f"s{i}.safetensors"
            write_safetensors(path, {f"odd.{j}": rand_tensor(rng, (3,), torch.float32) for j in range(6) if rng.random() < 0.8 or j == 0})
            self.structural.append(path)
        self.b_state = lab.rand_state(rng, lab.B, dtype=torch.float32)[0]
        self.alphas = {k: rng.choice([0.25, 0.5]) for k in A_KEYS}


def leaf(rng, env, space="weight"):
    config = rng.choice([lab.A.identifier, None])
    if rng.random() < 0.6:
        return sd_mecha.model(rng.choice(env.files), config=config, merge_space=space)
    return sd_mecha.model(rng.choice(env.states), config=config, merge_space=space)


def tree(rng, env, depth):
    if depth == 0:
        return leaf(rng, env)
    sub = lambda: tree(rng, env, depth - 1)
    op = rng.choice(["sum", "sum", "average", "difference", "fallback", "neighbour", "cast", "ties", "component", "alphas", "rotate"])
    if op == "sum":
        return sd_mecha.weighted_sum(sub(), sub(), alpha=rng.choice([0.25, 0.5, -1.0]))
    if op == "average":
        return sd_mecha.n_average(sub(), sub(), leaf(rng, env))
    if op == "difference":
        return sub() + (sub() - leaf(rng, env))
    if op == "fallback":
        return sub() | leaf(rng, env)
    if op == "neighbour":
        return lab.vm_neighbour(sub())
    if op == "cast":
        return sub().to(dtype=rng.choice([torch.float64, torch.float32]))
    if op == "ties":
        return sub() + sd_mecha.ties_sum(leaf(rng, env, "delta"), leaf(rng, env, "delta"), k=0.5)
    if op == "component":
        return sd_mecha.pick_component(sub(), "main") | sub()
    if op == "alphas":
        return sd_mecha.weighted_sum(sub(), sub(), alpha=env.alphas)
    return sd_mecha.rotate(sub(), leaf(rng, env)) if rng.random() < 0.3 else sub()


def merged(node, rng, env, tag, **kw):
    kw.setdefault("threads", rng.choice([0, 1, 2, 3]))
    kw.setdefault("total_buffer_size", rng.choice([0, 200, 2**20]))
    kw.setdefault("output_dtype", rng.choice([torch.float64, torch.float32]))
    how = rng.choice(["none", "dict", "file"])
    if how == "file":
        path = env.tmp / f"out{tag}.safetensors"
        merge(node, output=path, **kw)
        out, meta = read_safetensors(path)
        path.unlink()
        return values(out), sorted((meta or {}).items())
    return values(merge(node, output={} if how == "dict" else None, **kw))


def values(out):
    return sorted((k, str(t.dtype), tuple(t.shape), raw(t)) for k, t in out.items())


def op_merge(rng, env, tag):
    return merged(tree(rng, env, rng.randint(1, 2)), rng, env, tag, strict_weight_space=False)


def op_infer(rng, env, tag):
    node = sd_mecha.weighted_sum(sd_mecha.model(env.files[0]), sd_mecha.model(rng.choice([env.files[1], env.states[0]])), alpha=0.5)
    return merged(node, rng, env, tag, omit_extra_keys=rng.choice([True, False]))


def op_structural(rng, env, tag):
    if rng.random() < 0.4:
        return merged(sd_mecha.weighted_sum(*map(sd_mecha.model, env.structural), alpha=0.25), rng, env, tag)
    # keys that only this operation knows
    names = [f"own.{rng.randrange(100)}" for _ in range(rng.randint(1, 4))]
    inputs = [{k: torch.tensor([float(rng.randint(0, 9))]) for k in {*names, f"only.{i}"}} for i in range(rng.randint(1, 2))]
    out, *rest = [res := merged(sd_mecha.n_average(*map(sd_mecha.model, inputs)), rng, env, tag)]
    out = out[0] if isinstance(out, tuple) else out
    want = set.intersection(*map(set, inputs))
    if {k for k, *_ in out} != want:
        # also when it is alone, after others
        env.problems.append({"expected": sorted(want), "observed": [k for k, *_ in out]})
    return res


def op_convert(rng, env, tag):
    node = sd_mecha.convert(rng.choice([lambda: leaf(rng, env), lambda: tree(rng, env, 1), lambda: env.states[0]])(), rng.choice([lab.B.identifier, sd_mecha.model(env.b_state)]))
    return merged(node, rng, env, tag, strict_weight_space=False)


def op_serialize(rng, env, tag):
    node = sd_mecha.weighted_sum(sd_mecha.model(env.files[0], config=lab.A.identifier), sd_mecha.model(env.files[1], config=lab.A.identifier), alpha=rng.choice([0.5, env.alphas]))
    text = sd_mecha.serialize(node)
    again = sd_mecha.deserialize(text)
    return text, sd_mecha.serialize(again), merged(again, rng, env, tag)


def op_yaml(rng, env, tag):
    config = model_configs.resolve(rng.choice([lab.A.identifier, lab.B.identifier, "sd1-supermerger_blocks", "sdxl-supermerger_blocks"]))
    text = config.to_yaml() if hasattr(config, "to_yaml") else model_configs.to_yaml(config)
    again = model_configs.from_yaml(text)
    return text, again.identifier, [(k, tuple(v.shape), str(v.dtype)) for k, v in again.metadata().items()]


def op_fail(rng, env, tag):
    kind = rng.choice(["missing file", "space", "mandatory", "method"])
    try:
        if kind == "missing file":
            merged(sd_mecha.weighted_sum(leaf(rng, env), sd_mecha.model(env.tmp / "nothing.safetensors"), 0.5), rng, env, tag)
        elif kind == "space":
            merged(leaf(rng, env) - leaf(rng, env), rng, env, tag)
        elif kind == "mandatory":
            state = {k: v for k, v in env.states[0].items() if k != A_KEYS[3]}
            merged(sd_mecha.weighted_sum(leaf(rng, env), sd_mecha.model(state, config=lab.A.identifier), 0.5), rng, env, tag, check_mandatory_keys=True)
        else:
            merge_methods.resolve("no_such_method")
    except (RuntimeError, ValueError, OSError) as e:
        return kind, type(e).__name__, (str(e) if kind != "missing file" else "").replace(f"out{tag}", "out")
    return kind, "no error"


OPS = [("merge", op_merge, 5), ("infer", op_infer, 2), ("structural", op_structural, 2), ("convert", op_convert, 3), ("serialize", op_serialize, 2), ("yaml", op_yaml, 1), ("fail", op_fail, 2)]
NAMES, FNS, WEIGHTS = [o[0] for o in OPS], {o[0]: o[1] for o in OPS}, [o[2] for o in OPS]


def run_op(env, op, tag):
    name, seed = op
    try:
        return "value", FNS[name](random.Random(seed), env, tag)
    except Exception as e:
        return "error", type(e).__name__, str(e)


def together(ctx):
    rng, tmp = ctx.rng, ctx.tmpdir()
    env = Env(rng, tmp)
    count = rng.randint(2, 6)
    pool = [(name, rng.getrandbits(32)) for name in rng.choices(NAMES, WEIGHTS, k=rng.randint(2, 8))]
    plans = [[rng.choice(pool) for _ in range(rng.randint(1, 3))] for _ in range(count)]
    alone = {op: run_op(env, op, "alone") for op in pool}
    ctx.note(plans=[[n for n, _ in p] for p in plans])
    results, active, overlap, lock = {}, [0], [0], threading.Lock()
    barrier = threading.Barrier(count)

    def worker(i):
        barrier.wait()
        for j, op in enumerate(plans[i]):
            with lock:
                active[0] += 1
                overlap[0] += active[0] > 1
            try:
                results[i, j] = run_op(env, op, f"{i}_{j}")
            finally:
                with lock:
                    active[0] -= 1

    with sched.perturbed(rng, intensity=rng.choice([0.0, 0.01, 0.05]), max_count=1500) as stats:
        threads = [threading.Thread(target=worker, args=(i,)) for i in range(count)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    if env.problems:
        ctx.fail("a merge of models without a config has other keys than its models", **env.problems[0])
    for (i, j), got in results.items():
        op = plans[i][j]
        want = alone[op]
        if got != want:
            detail = {"alone": brief(want), "together": brief(got)}
            ctx.fail(f"the operation {op[0]!r} gives something else when others run at the same time", **detail)
        ctx.count("operations compared")
        ctx.count(f"{op[0]}: {want[0]}")
    ctx.check(len(results) == sum(map(len, plans)), "an operation did not end")
    ctx.count("concurrent runs")
    ctx.count("operations that overlap", overlap[0])
    ctx.count("injected delays", stats["delays"])
    ctx.seen("case", tuple(tuple(p) for p in plans))
    ctx.sample(plans=[[n for n, _ in p] for p in plans])


def brief(x):
    return repr(x)[:600]


SCENARIOS = [("together", together, 1)]
DIRECTED = []
