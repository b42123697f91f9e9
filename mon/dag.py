"""Random recipe graphs with an independent reference evaluator.

A reference node evaluates one key at a time in exact float64 arithmetic on small dyadic numbers; it raises Missing
where the recipe has no value. Building the sd_mecha recipe and evaluating the reference share no code with the tree
under test.
"""
import pathlib
import torch
import sd_mecha
from . import lab
from .util import rand_tensor

ALPHAS = [0.0, 1.0, 0.5, 0.25, 0.75, -0.5, 1.5, 2.0]


class Missing(Exception):
    pass


class Ref:
    """reference node: fn(key) -> tensor, or raises Missing"""
    def __init__(self, fn, text):
        self.fn, self.text, self.memo = fn, text, {}

    def __call__(self, key):
        if key not in self.memo:
            try:
                self.memo[key] = self.fn(key)
            except Missing:
                self.memo[key] = Missing
        res = self.memo[key]
        if res is Missing:
            raise Missing(key)
        return res


def lookup(d):
    def fn(key):
        if key not in d:
            raise Missing(key)
        return d[key].to(torch.float64)
    return fn


class Gen:
    def __init__(self, rng, tmp, spec, p_missing=0.0, file=None, serializable=False, n_models=4, dtype=None, extra_ops=(), ops=None):
        self.rng, self.tmp, self.spec = rng, tmp, spec
        self.serializable = serializable
        self.p_missing = p_missing
        self.file = True if serializable else file
        self.nodes = 0
        self.ops_used = set()
        self.ops = ops
        self.extra_ops = list(extra_ops)
        self.sources = []  # (ref, node, merge space)
        for i in range(n_models):
            for space in ("weight", "delta") if i < 2 else ("weight",):
                stored, canon = lab.rand_state(rng, spec, dtype=dtype, p_missing=p_missing, p_decoy=0.4)
                node = lab.as_model(rng, stored, tmp, spec.identifier, space, file=self.file, name=rng.choice([f"m{i}_{space}", f"{i}{space}/m", f"{i}/{space}/m"]))
                self.sources.append((Ref(lookup(canon), f"M{i}{space[0]}"), node, space, stored))
        self.shared = []

    # ---- parameters
    def alpha(self):
        """(node or literal, ref value function)"""
        rng = self.rng
        kind = rng.choice(["scalar", "scalar", "scalar", "int", "dict", "dict_default", "tensor"])
        if kind == "tensor" and self.serializable:
            kind = "scalar"
        if kind == "scalar":
            v = rng.choice(ALPHAS)
            return v, (lambda key: torch.tensor(v, dtype=torch.float64)), repr(v)
        if kind == "int":
            v = rng.choice([0, 1, 2, -1])
            return v, (lambda key: torch.tensor(float(v), dtype=torch.float64)), repr(v)
        if kind == "tensor":
            v = rng.choice(ALPHAS)
            t = torch.tensor(v, dtype=torch.float32)
            return t, (lambda key: t.to(torch.float64)), f"tensor({v})"
        keys = list(self.spec.keys)
        if kind == "dict":
            d = {k: rng.choice(ALPHAS) for k in keys}
        else:
            d = {k: rng.choice(ALPHAS) for k in keys if rng.random() < 0.6} or {keys[0]: 0.5}
        default = rng.choice(ALPHAS)
        node = sd_mecha.literal(d, config=self.spec.identifier)
        if kind == "dict_default":
            node = node | default

        def fn(key):
            if key in d:
                return torch.tensor(d[key], dtype=torch.float64)
            if kind == "dict_default":
                return torch.tensor(default, dtype=torch.float64)
            raise Missing(key)
        return node, fn, f"dict{'|' + repr(default) if kind == 'dict_default' else ''}"

    def gen(self, space, depth):
        rng = self.rng
        self.nodes += 1
        if self.shared and rng.random() < 0.15:
            options = [s for s in self.shared if s[2] == space]
            if options:
                return rng.choice(options)[:2]
        if depth <= 0 or rng.random() < 0.12:
            ref, node, _, _ = rng.choice([s for s in self.sources if s[2] == space])
            return ref, node
        ops = {
            "weight": ["weighted_sum", "n_average", "add_difference", "operator+", "operator|", "fallback", "clamp", "wrapper_add_difference",
                       "scale_shift", "neighbour", "mix", "vm_sum", "skip_fallback", "pick_or", "omit_or", "nodes_dict", "reuse", "cast", "copy_region", "keywords"],
            "delta": ["weighted_sum", "n_average", "subtract", "operator-", "operator|", "scale_shift", "neighbour", "mix", "vm_sum", "nodes_dict", "reuse", "keywords"],
        }[space] + self.extra_ops
        if self.ops is not None:
            ops = [o for o in ops if o in self.ops]
        op = rng.choice(ops)
        self.ops_used.add(op)
        ref, node = getattr(self, "op_" + op.replace("operator+", "plus").replace("operator-", "minus").replace("operator|", "pipe"))(space, depth - 1)
        if rng.random() < 0.3:
            self.shared.append((ref, node, space))
        return ref, node

    # ---- operators
    def op_weighted_sum(self, space, d):
        a, an = self.gen(space, d)
        b, bn = self.gen(space, d)
        alpha, af, at = self.alpha()
        if self.rng.random() < 0.2:
            node = sd_mecha.weighted_sum(an, bn)
            alpha, af, at = 0.5, (lambda key: torch.tensor(0.5, dtype=torch.float64)), "0.5"
        elif self.rng.random() < 0.5:
            node = sd_mecha.weighted_sum(an, bn, alpha)
        else:
            node = sd_mecha.weighted_sum(an, b=bn, alpha=alpha)

        def fn(key):
            t = af(key)
            if t == 0:
                return a(key)
            if t == 1:
                return b(key)
            return a(key) * (1 - t) + b(key) * t
        return Ref(fn, f"ws({a.text},{b.text},{at})"), node

    def op_n_average(self, space, d):
        n = self.rng.choice([1, 2, 4])
        parts = [self.gen(space, d) for _ in range(n)]
        node = sd_mecha.n_average(*[p[1] for p in parts])
        return Ref(lambda key: sum(p[0](key) for p in parts) / n, f"avg({','.join(p[0].text for p in parts)})"), node

    def op_add_difference(self, space, d):
        a, an = self.gen("weight", d)
        b, bn = self.gen("delta", d)
        alpha, af, at = self.alpha()
        node = sd_mecha.add_difference(an, bn, alpha=alpha)
        return Ref(lambda key: a(key) + b(key) * af(key), f"ad({a.text},{b.text},{at})"), node

    def op_wrapper_add_difference(self, space, d):
        a, an = self.gen("weight", d)
        b, bn = self.gen("weight", d)
        c, cn = self.gen("weight", d)
        alpha, af, at = self.alpha()
        clamp = self.rng.random() < 0.5
        node = sd_mecha.add_difference(an, bn, cn, alpha=alpha, clamp_to_ab=clamp)

        def fn(key):
            x, y, z = a(key), b(key), c(key)
            r = x + (y - z) * af(key)
            if clamp:
                r = torch.minimum(torch.maximum(r, torch.minimum(x, y)), torch.maximum(x, y))
            return r
        return Ref(fn, f"ad3({a.text},{b.text},{c.text},{at},{clamp})"), node

    def op_plus(self, space, d):
        a, an = self.gen("weight", d)
        b, bn = self.gen("delta", d)
        node = an + bn if self.rng.random() < 0.5 else bn + an
        return Ref(lambda key: a(key) + b(key), f"({a.text}+{b.text})"), node

    def op_subtract(self, space, d):
        a, an = self.gen("weight", d)
        b, bn = self.gen("weight", d)
        return Ref(lambda key: a(key) - b(key), f"({a.text}-{b.text})"), sd_mecha.subtract(an, bn)

    def op_minus(self, space, d):
        a, an = self.gen("weight", d)
        b, bn = self.gen("weight", d)
        return Ref(lambda key: a(key) - b(key), f"({a.text}-{b.text})"), an - bn

    def _fallback(self, a, b):
        def fn(key):
            try:
                return a(key)
            except Missing:
                return b(key)
        return Ref(fn, f"({a.text}|{b.text})")

    def op_pipe(self, space, d):
        a, an = self.gen(space, d)
        b, bn = self.gen(space, d)
        return self._fallback(a, b), an | bn

    def op_fallback(self, space, d):
        a, an = self.gen(space, d)
        b, bn = self.gen(space, d)
        return self._fallback(a, b), sd_mecha.fallback(an, bn)

    def op_clamp(self, space, d):
        a, an = self.gen(space, d)
        bounds = [self.gen(space, d) for _ in range(self.rng.randint(2, 3))]
        node = sd_mecha.clamp(an, *[b[1] for b in bounds])

        def fn(key):
            x, vals = a(key), torch.stack([b[0](key) for b in bounds])
            return torch.minimum(torch.maximum(x, vals.amin(0)), vals.amax(0))
        return Ref(fn, f"clamp({a.text},{','.join(b[0].text for b in bounds)})"), node

    def op_scale_shift(self, space, d):
        a, an = self.gen(space, d)
        scale, sf, st = self.alpha()
        shift = self.rng.choice([0.0, 0.5, -2.0, 3])
        node = lab.vm_scale_shift(an, scale, shift=shift) if self.rng.random() < 0.5 else lab.vm_scale_shift(shift=shift, x=an, scale=scale)
        return Ref(lambda key: a(key) * sf(key) + shift, f"ss({a.text},{st},{shift})"), node

    def op_neighbour(self, space, d):
        a, an = self.gen(space, d)
        step = self.rng.randint(-2, 3)
        node = lab.vm_neighbour(an, step)
        keys = list(self.spec.keys)

        def fn(key):
            if key not in self.spec.keys:
                raise Missing(key)
            same = [k for k in keys if tuple(self.spec.keys[k]["shape"]) == tuple(self.spec.keys[key]["shape"])]
            return a(same[(same.index(key) + step) % len(same)])
        return Ref(fn, f"nb({a.text},{step})"), node

    def op_mix(self, space, d):
        a, an = self.gen(space, d)
        step = self.rng.randint(-2, 3)
        keys = list(self.spec.keys)

        def fn(key):
            if key not in self.spec.keys:
                raise Missing(key)
            same = [k for k in keys if tuple(self.spec.keys[k]["shape"]) == tuple(self.spec.keys[key]["shape"])]
            return a(key) * -3 + 2 * a(same[(same.index(key) + step) % len(same)])
        return Ref(fn, f"mix({a.text},{step})"), lab.vm_mix(an, step)

    def op_vm_sum(self, space, d):
        parts = [self.gen(space, d) for _ in range(self.rng.randint(1, 4))]
        negate = self.rng.random() < 0.3
        node = lab.vm_sum(*[p[1] for p in parts], negate=negate)

        def fn(key):
            r = sum(p[0](key) for p in parts)
            return -r if negate else r
        return Ref(fn, f"sum{'-' if negate else ''}({','.join(p[0].text for p in parts)})"), node

    def op_skip_fallback(self, space, d):
        a, an = self.gen(space, d)
        b, bn = self.gen(space, d)
        fragment = self.rng.choice(["main", "side", ".1.", "ema", "nothing"])
        node = lab.vm_skip(an, fragment) | bn

        def fn(key):
            if fragment in key:
                return b(key)
            try:
                return a(key)
            except Missing:
                return b(key)
        return Ref(fn, f"(skip({a.text},{fragment})|{b.text})"), node

    def _component(self, keep):
        def op(space, d):
            a, an = self.gen(space, d)
            b, bn = self.gen(space, d)
            comp = self.rng.choice(list(self.spec.components))
            method = sd_mecha.pick_component if keep else sd_mecha.omit_component
            node = method(an, comp) | bn

            def fn(key):
                if key not in self.spec.keys:
                    raise Missing(key)
                if (self.spec.component_of(key) == comp) == keep:
                    try:
                        return a(key)
                    except Missing:
                        return b(key)
                return b(key)
            return Ref(fn, f"({'pick' if keep else 'omit'}({a.text},{comp})|{b.text})"), node
        return op

    def op_pick_or(self, space, d):
        return self._component(True)(space, d)

    def op_omit_or(self, space, d):
        return self._component(False)(space, d)

    def op_nodes_dict(self, space, d):
        keys = [k for k in self.spec.keys if self.rng.random() < 0.7] or list(self.spec.keys)[:1]
        options = [self.gen(space, d) for _ in range(self.rng.randint(1, 2))]
        chosen = {k: self.rng.choice(options) for k in keys}
        node = sd_mecha.literal({k: v[1] for k, v in chosen.items()})
        b, bn = self.gen(space, d)

        def fn(key):
            if key in chosen:
                return chosen[key][0](key)
            raise Missing(key)
        ref = Ref(fn, f"dict[{','.join(sorted({v[0].text for v in chosen.values()}))}]")
        return self._fallback(ref, b), node | bn

    def op_reuse(self, space, d):
        """the same node used several times"""
        a, an = self.gen(space, d)
        node = lab.vm_sum(an, an, an)
        return Ref(lambda key: a(key) * 3, f"3*{a.text}"), node

    def op_keywords(self, space, d):
        (x, xn), (y, yn), (z, zn) = (self.gen(space, d) for _ in range(3))
        node = lab.vm_keywords(xn, z=zn, y=yn) if self.rng.random() < 0.5 else lab.vm_keywords(y=yn, x=xn, z=zn)
        return Ref(lambda key: x(key) - y(key) + 2 * z(key), f"kw({x.text},{y.text},{z.text})"), node

    def op_cast(self, space, d):
        a, an = self.gen(space, d)
        return Ref(a.fn, a.text), an.to(dtype=torch.float64)

    def op_copy_region(self, space, d):
        a, an = self.gen(space, d)
        b, bn = self.gen(space, d)
        node = sd_mecha.copy_region(an, bn, width=0.5, offset=0.0)

        def fn(key):
            x, y = a(key), b(key)
            if x.dim() == 0:
                return x
            n = round(0.5 * x.size(0))
            return torch.cat([y[:n], x[n:]])
        return Ref(fn, f"copy({a.text},{b.text})"), node

    def expected(self, ref, keys=None):
        res = {}
        for k in self.spec.keys if keys is None else keys:
            try:
                res[k] = ref(k)
            except Missing:
                pass
        return res


def numerically_equal(a, b):
    return tuple(a.shape) == tuple(b.shape) and bool(torch.equal(a.to(torch.float64), b.to(torch.float64)))
