"""Small model configs, models and custom merge methods that the workloads share. Only the public API is used."""
import pathlib
import torch
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict, StateDictKeyError
from sd_mecha.extensions import model_configs
from torch import Tensor
from .util import rand_tensor, write_safetensors, FLOATS

SHAPES = [(), (3,), (4, 3), (2, 3), (2, 2, 3, 3), (5,), (1, 4)]


class Spec:
    """description of a small config, independent of the code under test"""
    def __init__(self, identifier, components):
        self.identifier = identifier
        self.components = components  # component -> key -> dict(shape, dtype, aliases, optional)
        self.keys = {k: v for c in components.values() for k, v in c.items()}

    def yaml(self):
        lines = [f"identifier: {self.identifier}", "components:"]
        for c, keys in self.components.items():
            lines.append(f"  {c}:" + ("" if keys else " {}"))
            for k, v in keys.items():
                extra = ""
                if v.get("aliases"):
                    extra += f", aliases: [{', '.join(v['aliases'])}]"
                if v.get("optional"):
                    extra += ", optional: true"
                lines.append(f"    {k}: {{shape: {list(v['shape'])}, dtype: {v['dtype']}{extra}}}")
        return "\n".join(lines) + "\n"

    def config(self):
        return model_configs.from_yaml(self.yaml())

    def names(self, key):
        return [key, *self.keys[key].get("aliases", ())]

    def component_of(self, key):
        return next(c for c, keys in self.components.items() if key in keys)


def make_spec(identifier, prefix, ema=True, aliases=True, optional=True, scale=1):
    comp = {"main": {}, "side": {}}
    for i in range(5 * scale):
        comp["main"][f"{prefix}.main.{i}.weight"] = {"shape": SHAPES[i % len(SHAPES)], "dtype": "float32"}
    for i in range(3 * scale):
        comp["side"][f"{prefix}.side.{i}.weight"] = {"shape": SHAPES[(i + 2) % len(SHAPES)], "dtype": "float16"}
    if ema:
        comp["ema"] = {
            f"{prefix}.ema.{i}": {"shape": SHAPES[i % len(SHAPES)], "dtype": "float32", "optional": True}
            for i in range(2)
        }
    if aliases:
        comp["main"][f"{prefix}.main.0.weight"]["aliases"] = [f"{prefix}.alias0", f"{prefix}.alias0b"]
        comp["side"][f"{prefix}.side.1.weight"]["aliases"] = [f"{prefix}.alias1"]
    if optional:
        comp["main"][f"{prefix}.main.2.weight"]["optional"] = True
        comp["side"][f"{prefix}.side.2.weight"]["optional"] = True
    return Spec(identifier, comp)


A = make_spec("vmona-one", "a")
B = make_spec("vmonb-one", "b")
BIG = make_spec("vmonbig-one", "big", scale=12)
_registered = set()


def register(*specs):
    for spec in specs:
        if spec.identifier not in _registered:
            model_configs.register_aux(spec.config())
            _registered.add(spec.identifier)


def rand_state(rng, spec, dtype=None, p_missing=0.0, p_alias=0.4, ints=True, lo=-8, hi=8, keep=(), p_decoy=0.0):
    """a state dict for `spec`; returns (tensors by stored name, tensors by canonical key)

    Decoys are other tensors under accepted names that come after the one that counts.
    """
    stored, canon = {}, {}
    keys = list(spec.keys)
    rng.shuffle(keys)
    for k in keys:
        if k not in keep and rng.random() < p_missing:
            continue
        d = dtype or rng.choice(FLOATS)
        t = rand_tensor(rng, tuple(spec.keys[k]["shape"]), d, ints=ints, lo=lo, hi=hi)
        names = spec.names(k)
        name = rng.choice(names) if rng.random() < p_alias else k
        stored[name] = t
        canon[k] = t
        for other in names[names.index(name) + 1:]:
            if rng.random() < p_decoy:
                stored[other] = rand_tensor(rng, tuple(spec.keys[k]["shape"]), d, ints=ints, lo=lo, hi=hi)
    return stored, canon


def as_model(rng, stored, tmp, config, merge_space="weight", file=None, name=None):
    """in-memory or on-disk model node"""
    if file is None:
        file = rng.random() < 0.5
    if not file:
        return sd_mecha.model(dict(stored), config=config, merge_space=merge_space)
    path = pathlib.Path(tmp) / f"{name or f'm{rng.getrandbits(40):x}'}.safetensors"
    path.parent.mkdir(parents=True, exist_ok=True)
    write_safetensors(path, stored)
    return sd_mecha.model(rng.choice([str, pathlib.Path])(path), config=config, merge_space=merge_space)


# ---- custom merge methods

@merge_method
def vm_scale_shift(
    x: Parameter(Tensor),
    scale: Parameter(Tensor) = 1.0,
    *,
    shift: Parameter(float) = 0.0,
) -> Return(Tensor):
    return x * scale + shift


@merge_method
def vm_neighbour(
    x: Parameter(StateDict[Tensor]),
    step: Parameter(int) = 1,
    **kwargs,
) -> Return(Tensor):
    """reads another key of the same shape"""
    key = kwargs["key"]
    keys = list(x.model_config.keys())
    same = [k for k in keys if x.model_config.keys()[k].shape == x.model_config.keys()[key].shape]
    return x[same[(same.index(key) + step) % len(same)]]


@merge_method
def vm_mix(
    x: Parameter(StateDict[Tensor]),
    step: Parameter(int) = 1,
    **kwargs,
) -> Return(Tensor):
    """reads several keys, its own one twice"""
    key = kwargs["key"]
    same = [k for k, v in x.model_config.keys().items() if v.shape == x.model_config.keys()[key].shape]
    other = same[(same.index(key) + step) % len(same)]
    first = x[key]
    return first + 2 * x[other] - 4 * x[key]


@merge_method
def vm_sum(
    *xs: Parameter(Tensor),
    negate: Parameter(bool) = False,
) -> Return(Tensor):
    res = xs[0]
    for x in xs[1:]:
        res = res + x
    return -res if negate else res


@merge_method
def vm_skip(
    x: Parameter(StateDict[Tensor]),
    fragment: Parameter(str),
    **kwargs,
) -> Return(Tensor):
    """has no value for the keys that contain `fragment`"""
    if fragment in kwargs["key"]:
        raise StateDictKeyError(kwargs["key"])
    return x[kwargs["key"]]


@merge_method
def vm_keywords(
    x: Parameter(Tensor),
    *,
    y: Parameter(Tensor),
    z: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    """models given by keyword only"""
    return x - y + 2 * z[kwargs["key"]]
