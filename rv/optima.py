"""Optimization problems whose optimum is known independently.

Two families over arbitrary parameters:

* 'divergence': F(x, h) = D_h(vec(x) - m(h)) with m an arbitrary smooth map to
  legal values and D_h(r) a smooth convex function, depending on h, minimized
  at r = 0; the optimum is m(h) in closed form.
* 'newton': F(x, h) = E(vec(x)) + sum_k h_k T_k(vec(x)); the optimum is found
  by Newton's method in plain numbers with hand-written derivatives.

Neither uses the library under test except to read values and to convert the
known optimal value to the requested parameterization (on twin objects).
"""
import numpy as onp
import autograd.numpy as np

import gen
import functors

IN_KINDS = ['vector', 'scalar', 'array', 'posdef', 'simplex', 'subspace', 'posdefvec',
            'uvn', 'gamma', 'mvn', 'wishart', 'dirichlet', 'dict', 'posdefarr', 'uvnvec', 'dict']
HY_KINDS = ['vector', 'scalar', 'array', 'gamma', 'uvn', 'posdef', 'dict', 'simplex', 'uvnvec']


def read(spec, par):
    """The parameter's numbers as a vector, through its values."""
    parts = []
    for (path, leaf), obj in zip(spec.leaves(), spec.leaf_objs(par)):
        if leaf.kind.startswith('posdef'):
            parts.append(obj.get_vector())
        else:
            parts.append(np.reshape(obj.get(), -1))
    return np.hstack(parts)


class Problem(object):
    def __init__(self, ctx, max_in=5, max_hy=3, families=('divergence', 'newton'), kinds=IN_KINDS):
        rng = ctx.rng
        self.ctx = ctx
        i = ctx.index
        self.spec = gen.rand_spec(rng, ctx, big=False, index=i, max_free=max_in, kinds=kinds)
        while self.spec.vector_size > 2 * max_in:
            self.spec = gen.rand_spec(rng, ctx, big=False, index=i, max_free=max_in, kinds=kinds)
        self.hspec = gen.rand_spec(rng, ctx, big=False, name='hyper', index=i // 2 + i // 17,
                                   max_free=max_hy, kinds=HY_KINDS)
        curved = any(l.kind in ('simplex', 'subspace') for _, l in self.spec.leaves())
        fam = families[rng.randint(len(families))]
        self.family = 'divergence' if curved else fam
        ctx.feat('family ' + self.family)
        ctx.struct(self.family)
        self.par, self.twin = self.spec.build(), self.spec.build()
        self.hyper, self.htwin = self.hspec.build(), self.hspec.build()
        # Reference values.
        self.f0 = rng.uniform(-1, 1, size=self.spec.free_size)
        self.twin.set_free(self.f0)
        self.value0 = self.spec.get_value(self.twin)
        self.v0 = self.spec.pack(self.value0)
        self.w = functors.vec_margin(self.spec, self.value0)
        hf = rng.uniform(-1, 1, size=self.hspec.free_size)
        self.htwin.set_free(hf)
        self.hv0 = onp.array(self.htwin.get_vector())
        self.hw = functors.vec_margin(self.hspec, self.hspec.get_value(self.htwin))
        n, p = self.v0.size, self.hv0.size
        self.Wh = rng.randn(3, p) / onp.sqrt(p)
        self.bh = rng.uniform(-1, 1, size=3)
        self.B = rng.randn(n, 3)
        q = rng.randn(n, n) / onp.sqrt(n)
        self.Q = onp.dot(q, q.T) * 0.5 + onp.diag(rng.uniform(0.7, 1.5, size=n))
        self.c = rng.uniform(0.1, 0.5, size=n)
        self.a = rng.choice([-1., 1.], size=n) * rng.uniform(0.4, 1., size=n)
        self.uq = rng.randn(3)
        self.l = rng.randn(n) / onp.sqrt(n)
        self.T1 = rng.randn(3, n)
        self.T2 = rng.uniform(-0.5, 0.5, size=(3, n))
        # The optimum does not depend on the units of the objective.
        self.scale = 2. ** float([0, 0, 0, -37, 25][rng.randint(5)])
        self.proj = {}
        for path, leaf in self.spec.leaves():
            if leaf.kind == 'subspace':
                qq, _ = onp.linalg.qr(leaf.rows().T)
                self.proj[path] = onp.eye(leaf.dim) - onp.dot(qq, qq.T)

    # ---- the model ---------------------------------------------------------
    def z(self, hv):
        return np.sin(np.dot(self.Wh, (hv - self.hv0) / self.hw) + self.bh)

    def m(self, hv):
        """The closed-form optimum of the divergence family."""
        y = np.tanh(np.dot(self.B, self.z(hv)))
        parts, o = [], 0
        for path, leaf in self.spec.leaves():
            s = slice(o, o + leaf.vector_size)
            o += leaf.vector_size
            if leaf.kind == 'simplex':
                e = np.reshape(self.v0[s] * np.exp(0.5 * y[s]), leaf.shape)
                e = e / np.sum(e, axis=1, keepdims=True)
                parts.append(np.reshape(e, -1))
            elif leaf.kind == 'subspace':
                parts.append(self.v0[s] + 0.5 * np.dot(self.proj[path], y[s]))
            else:
                parts.append(self.v0[s] + 0.4 * self.w[s] * y[s])
        return np.hstack(parts)

    def convex(self, r, k=1.):
        return 0.5 * k * np.dot(r, np.dot(self.Q, r)) + \
            np.sum(self.c * (np.exp(self.a * r) - self.a * r - 1.))

    def t(self, hv):
        """Coefficients of the perturbation in the Newton family."""
        return 0.2 * (self.z(hv) + 0.3 * self.z(hv)[::-1] ** 2)

    def full(self, vec, hv):
        if self.family == 'divergence':
            r = (vec - self.m(hv)) / self.w
            k = 1. + 0.3 * np.sin(np.dot(self.uq, self.z(hv)))
            return self.scale * (self.convex(r, k) + 0.2 * np.sum(np.cos(self.z(hv))))
        r = (vec - self.v0) / self.w
        return self.scale * (self.convex(r) + self.hyper_terms(r, hv))

    def hyper_terms(self, r, hv):
        return np.dot(self.t(hv), np.dot(self.T1, r) + 0.5 * np.dot(self.T2, r ** 2))

    def hyper_part(self, vec, hv):
        """Differs from full by a function of the input only."""
        if self.family == 'divergence':
            r0 = (vec - self.v0) / self.w
            return self.full(vec, hv) - self.scale * (np.sin(np.dot(self.l, r0)) + 0.4 * np.sum(r0 ** 2))
        return self.scale * self.hyper_terms((vec - self.v0) / self.w, hv)

    # ---- functors over the parameter objects -------------------------------
    def fun(self):
        return lambda: self.full(read(self.spec, self.par), read(self.hspec, self.hyper))

    def frozen_fun(self, box):
        """The objective with the hyperparameter replaced by a constant."""
        return lambda: self.full(read(self.spec, self.par), box[0])

    def hyper_fun(self):
        return lambda: self.hyper_part(read(self.spec, self.par), read(self.hspec, self.hyper))

    # ---- the truth -----------------------------------------------------------
    def optimum(self, hv):
        """Optimal input vector at a hyperparameter vector, in plain numbers."""
        if self.family == 'divergence':
            return onp.array(self.m(hv), float)
        t = onp.array(self.t(hv), float)
        lin, quad = onp.dot(t, self.T1), onp.dot(t, self.T2)
        r = onp.zeros(self.v0.size)
        for _ in range(60):
            g = onp.dot(self.Q, r) + self.c * self.a * (onp.exp(self.a * r) - 1.) + lin + quad * r
            H = self.Q + onp.diag(self.c * self.a ** 2 * onp.exp(self.a * r) + quad)
            step = onp.linalg.solve(H, g)
            r = r - step
            if onp.max(onp.abs(step)) < 1e-16:
                break
        return self.v0 + self.w * r

    def legal(self, hv):
        return self.spec.legal_problem(self.spec.unpack(self.optimum(hv))) is None

    def hyper_vec(self, hp, is_free):
        if not is_free:
            return onp.asarray(hp, float)
        self.htwin.set_free(onp.array(hp))
        return onp.array(self.htwin.get_vector())

    def to_free(self, vec):
        self.twin.set_vector(onp.array(vec))
        return onp.array(self.twin.get_free())

    def truth(self, hp, in_free, hy_free):
        """Optimal input in its parameterization as a function of the
        hyperparameter in its own."""
        vec = self.optimum(self.hyper_vec(hp, hy_free))
        return self.to_free(vec) if in_free else vec

    def base(self, hy_free, spread=0.3):
        """A base hyperparameter and the size of a unit step there."""
        rng = self.ctx.rng
        f = self.hspec.free_size
        self.htwin.set_vector(self.hv0)
        hf0 = onp.array(self.htwin.get_free())
        hf = hf0 + spread * rng.uniform(-1, 1, size=f)
        self.htwin.set_free(hf)
        hv = onp.array(self.htwin.get_vector())
        if hy_free:
            return hf, onp.ones(f)
        return hv, functors.vec_margin(self.hspec, self.hspec.get_value(self.htwin))

    def set_hyper(self, hp, is_free):
        (self.hyper.set_free if is_free else self.hyper.set_vector)(onp.array(hp))
