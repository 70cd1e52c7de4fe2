"""Random smooth functions of parameter objects, written in autograd.numpy.

A functor is built for a spec and a reference value (which fixes the scaling
so that values of any magnitude give well scaled functions) and can be
evaluated on any object of that spec, with plain numbers or under autodiff.
"""
import numpy as onp
import autograd.numpy as np
import autograd.scipy as sp

import gen
from gen import INF


def leaf_scale(leaf, value):
    """Elementwise (center, width) of a leaf's vector."""
    vec = leaf.pack(value)
    if leaf.kind in ('scalar', 'vector', 'array'):
        if leaf.lb > -INF and leaf.ub < INF:
            w = onp.full(vec.shape, float(leaf.ub) - float(leaf.lb))
        elif leaf.lb > -INF:
            w = onp.abs(vec - leaf.lb)
        elif leaf.ub < INF:
            w = onp.abs(leaf.ub - vec)
        else:
            w = onp.full(vec.shape, 1.)
    elif leaf.kind == 'simplex':
        w = onp.full(vec.shape, 1.)
    elif leaf.kind == 'subspace':
        w = onp.full(vec.shape, 1.)
    else:
        w = onp.full(vec.shape, max(1., onp.max(onp.abs(vec)) - leaf.diag_lb))
    return vec, w


def vec_margin(spec, value):
    """How far each entry of the vector may move and stay legal."""
    out = []
    if spec.composite:
        return onp.concatenate([vec_margin(c, value[c.name]) for c in spec.children])
    vec = spec.pack(value)
    if spec.kind in ('scalar', 'vector', 'array'):
        m = onp.full(vec.shape, 1.)
        if spec.lb > -INF:
            m = onp.minimum(m, vec - spec.lb)
        if spec.ub < INF:
            m = onp.minimum(m, spec.ub - vec)
        return m
    if spec.kind == 'simplex':
        return vec.copy()
    if spec.kind == 'subspace':
        return onp.full(vec.shape, 1.)
    if spec.kind == 'posdef':
        ev = onp.linalg.eigvalsh(value)[0] - spec.diag_lb
        return onp.full(vec.shape, ev / spec.k)
    for ind in onp.ndindex(*spec.lead):
        ev = onp.linalg.eigvalsh(value[ind])[0] - spec.diag_lb
        out.append(onp.full(spec.block, ev / spec.k))
    return onp.concatenate(out)


_G = [lambda x: np.sin(x),
      lambda x: x ** 2,
      lambda x: np.exp(-0.25 * x ** 2),
      lambda x: np.log1p(x ** 2),
      lambda x: x + 0.1 * x ** 3,
      lambda x: np.tanh(0.7 * x)]


class Functor(object):
    """F(obj): a scalar, smooth, coupling all members."""

    def __init__(self, rng, spec, value, use_matrix=True, moments=True):
        self.spec = spec
        self.paths = []
        self.terms = []
        n = spec.vector_size
        cs, ws = [], []
        for path, leaf in spec.leaves():
            v = value
            for p in path:
                v = v[p]
            c, w = leaf_scale(leaf, v)
            cs.append(c)
            ws.append(w)
            self.paths.append(path)
            kind = rng.randint(len(_G))
            coef = rng.randn(int(onp.size(v)) if leaf.kind != 'scalar' else 1)
            shift = rng.uniform(-0.5, 0.5)
            shape_c = leaf.pack(v)
            flat_c = onp.ravel(onp.asarray(v, float))
            wscale = float(onp.max(w))
            self.terms.append((path, kind, coef, flat_c, wscale, shift))
        self.mats = []
        if use_matrix:
            for path, leaf in spec.leaves():
                if leaf.kind == 'posdef':
                    a = rng.randn(leaf.k, leaf.k)
                    v = value
                    for p in path:
                        v = v[p]
                    self.mats.append((path, rng.randint(3), a, float(onp.max(onp.abs(v)))))
        # slogdet and inv have no forward-mode rule in the autodiff library.
        self.forward_ok = all(m[1] == 1 for m in self.mats)
        self.vec0 = onp.concatenate(cs)
        self.wid = onp.concatenate(ws)
        q = rng.randn(n, n) / n
        self.q = 0.5 * (q + q.T)
        self.l = rng.randn(n)
        self.use_vec = rng.rand() < 0.8
        self.const = rng.randn()

    def leaf(self, obj, path):
        for p in path:
            obj = obj[p]
        return obj

    def __call__(self, obj):
        tot = self.const
        parts = []
        for path, kind, coef, c, w, shift in self.terms:
            x = np.reshape(self.leaf(obj, path).get(), -1)
            x = (x - c) / w + shift
            s = np.sum(coef * _G[kind](x))
            parts.append(s)
            tot = tot + s
        # Couple the members.
        for i in range(1, len(parts)):
            tot = tot + 0.3 * np.sin(parts[i - 1]) * np.cos(0.5 * parts[i])
        for path, kind, a, sc in self.mats:
            m = self.leaf(obj, path).get()
            if kind == 0:
                tot = tot + 0.3 * np.linalg.slogdet(m)[1]
            elif kind == 1:
                tot = tot + np.sum(a * m) / sc
            else:
                tot = tot + 0.2 * np.sum(a * np.linalg.inv(m)) / onp.sum(onp.abs(a))
        if self.use_vec:
            w = (obj.get_vector() - self.vec0) / self.wid
            tot = tot + 0.5 * np.dot(w, np.dot(self.q, w)) + 0.2 * np.sin(np.dot(self.l, w))
        return tot


def magnitude(spec, value):
    """Rounding magnitude of the functor: how many units of its own scale the
    raw numbers are (values far from zero relative to their width)."""
    m = 1.
    for path, leaf in spec.leaves():
        v = value
        for p in path:
            v = v[p]
        c, w = leaf_scale(leaf, v)
        b = max([abs(x) for x in (getattr(leaf, 'lb', 0.), getattr(leaf, 'ub', 0.))
                 if abs(x) < INF] + [getattr(leaf, 'diag_lb', 0.)])
        m = max(m, float(onp.max((onp.abs(c) + b) / w)))
    return 30. * m * (1 + spec.vector_size) 


def point(rng, spec):
    """A moderate free point whose value is well conditioned."""
    return gen.rand_free(rng, spec, float(rng.choice([0.3, 0.7, 1.0]))).clip(-2., 2.)


def radius_free(rng, spec):
    """A direction in free space of size about one."""
    u = rng.uniform(-1, 1, size=spec.free_size)
    n = onp.max(onp.abs(u)) if u.size else 1.
    return u / max(n, 0.3)
