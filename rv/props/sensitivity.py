"""C17, C18, C20: sensitivity of an optimum to hyperparameters."""
import math
import numpy as onp
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.ModelSensitivity as sens_lib

from core import scenario, prop, is_plain
import gen
import functors
import optima
import oracles
from props.params import pollute
from props.objectives import tree_scale
from props.hygiene import snapshot, same_snapshot

RADIUS = 0.25
ASSUME = ['the true optimum is known in closed form or by Newton iteration in plain numbers, and its derivatives are measured by Chebyshev interpolation; points where the two interpolation orders disagree are abandoned, and counted',
          'the conversion of the known optimal value to free coordinates is that of a twin parameter (decided separately by C01, C07, C08)']

prop('C17', rule='random pairs of input and hyperparameters of every kind with random smooth objectives whose optimum is known, for all four mixtures of parameterizations, with and without a supplied Hessian and a hyperparameter functor, and after re-basing; the reported Jacobian and predictions are compared with spectral derivatives of the true optimum',
     required=['sensitivity', 'prediction', 'supplied hessian is used', 'hyperparameter functor', 're-based', 'left at the base values'],
     assumptions=ASSUME)


def left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg):
    for spec, par, twin, x, fr in ((P.spec, P.par, P.twin, in0, in_free),
                                   (P.hspec, P.hyper, P.htwin, hy0, hy_free)):
        for path, v in spec.raw(par):
            ctx.check('left at the base values', is_plain(v), lambda: '{} {}: {!r}'.format(msg, path, v))
        (twin.set_free if fr else twin.set_vector)(onp.array(x))
        want = spec.get_value(twin)
        spec.close(ctx, 'left at the base values', spec.get_value(par), want,
                   tree_scale(spec.value_tol(want), 10), msg)


def true_hessian(P, in0, in_free, hv):
    """Hessian of the full objective at the optimum, from twins."""
    par = P.spec.build()
    obj = obj_lib.Objective(par, lambda: P.full(optima.read(P.spec, par), hv))
    return onp.array(obj.fun_free_hessian(in0) if in_free else obj.fun_vector_hessian(in0))


def true_jac(P, hy0, unit, in_free, hy_free, d, kmax=1):
    mag = 20. * (1 + onp.max(onp.abs(P.v0)) + onp.max(onp.abs(P.v0) / P.w))
    return oracles.derivs(lambda t: P.truth(hy0 + t * d, in_free, hy_free), kmax, RADIUS, mag=mag)


def options(ctx, P):
    """Random choice of how the object is told about the objective."""
    rng = ctx.rng
    style = ['plain', 'hyper functor', 'hyper functor, frozen objective'][[0, 0, 1, 2][rng.randint(4)]]
    box = [P.hv0]
    if style == 'plain':
        fun, hfun = P.fun(), None
    elif style == 'hyper functor':
        fun, hfun = P.fun(), P.hyper_fun()
    else:
        fun, hfun = P.frozen_fun(box), P.hyper_fun()
    ctx.feat('objective: ' + style)
    return style, fun, hfun, box


@scenario('C17', 150)
def linear(ctx):
    rng = ctx.rng
    P = optima.Problem(ctx)
    in_free, hy_free = bool(ctx.index & 1), bool((ctx.index >> 1) & 1)
    style, fun, hfun, box = options(ctx, P)
    ctx.feat('input {} hyper {}'.format('free' if in_free else 'vector', 'free' if hy_free else 'vector'))
    hy0, unit = P.base(hy_free)
    hv = P.hyper_vec(hy0, hy_free)
    box[0] = hv
    in0 = P.truth(hy0, in_free, hy_free)
    pollute(ctx, P.spec, P.par)
    pollute(ctx, P.hspec, P.hyper)
    H = true_hessian(P, in0, in_free, hv)
    hkind = rng.randint(3)
    hess0, scale = None, 1.
    if hkind == 1:
        hess0 = H
    elif hkind == 2:
        hess0, scale = 2.5 * H, 1 / 2.5
    kw = {}
    if not (in_free and rng.rand() < 0.3):
        kw['input_is_free'] = gen.flag(rng, in_free)
    if hy_free or rng.rand() < 0.7:
        kw['hyper_is_free'] = gen.flag(rng, hy_free)
    s = ctx.call('ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                 fun, P.par, P.hyper, onp.array(in0), onp.array(hy0), hess0=hess0,
                 hyper_par_objective_functor=hfun, **kw)
    msg = '{} {} {} <- {}'.format(style, kw, P.spec.describe(), P.hspec.describe())
    mon = 'supplied hessian is used' if hkind == 2 else 'hyperparameter functor' if hfun else 'sensitivity'
    check_linear(ctx, P, s, in0, hy0, unit, in_free, hy_free, scale, mon, msg)
    # Re-base, twice sometimes.
    for _ in range(int(rng.randint(0, 3))):
        hy0, unit = P.base(hy_free)
        hv = P.hyper_vec(hy0, hy_free)
        box[0] = hv
        in0 = P.truth(hy0, in_free, hy_free)
        H = true_hessian(P, in0, in_free, hv)
        hess0, scale = [(None, 1.), (H, 1.), (0.5 * H, 2.)][rng.randint(3)]
        if rng.rand() < 0.5:
            pollute(ctx, P.spec, P.par)
            pollute(ctx, P.hspec, P.hyper)
        ctx.call('set_base_values', s.set_base_values, onp.array(in0), onp.array(hy0), hess0=hess0)
        fresh = sens_lib.ParametricSensitivityLinearApproximation(
            fun, P.par, P.hyper, onp.array(in0), onp.array(hy0), input_is_free=in_free,
            hyper_is_free=hy_free, hess0=hess0, hyper_par_objective_functor=hfun)
        S, F = s.get_dinput_dhyper(), fresh.get_dinput_dhyper()
        ctx.close('re-based', S, F, 1e-9 * (1 + onp.max(onp.abs(F))), msg)
        check_linear(ctx, P, s, in0, hy0, unit, in_free, hy_free, scale, 'sensitivity', msg + ' re-based')


def check_linear(ctx, P, s, in0, hy0, unit, in_free, hy_free, scale, mon, msg):
    rng = ctx.rng
    left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg)
    S = onp.array(ctx.call('get_dinput_dhyper', s.get_dinput_dhyper))
    ctx.check('sensitivity shape', S.shape == (in0.size, hy0.size), lambda: msg + str(S.shape))
    for j in range(2):
        d = rng.uniform(-1, 1, size=hy0.size) * unit
        if j:
            d = onp.eye(hy0.size)[rng.randint(hy0.size)] * unit
        D, E = true_jac(P, hy0, unit, in_free, hy_free, d)
        oracles.compare(ctx, mon, onp.dot(S, d), scale * D[1], E[1], floor=1e-9, msg=msg)
        if scale == 1. and mon != 'sensitivity':
            ctx.monitors['sensitivity'] += 1
    for c in (0., 0.3, -2.):
        d = c * rng.uniform(-1, 1, size=hy0.size) * unit
        got = ctx.call('predict', s.predict_input_par_from_hyperparameters, hy0 + d)
        want = in0 + onp.dot(S, (hy0 + d) - hy0)
        ctx.close('prediction', got, want, 1e-10 * (1 + onp.max(onp.abs(want)) + onp.max(onp.abs(S)) * onp.max(onp.abs(d))), msg)
    left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg)


@scenario('C17', 60)
def regression_like(ctx):
    """A plainly written model, as a user would write it."""
    rng = ctx.rng
    n, p = int(rng.randint(2, 9)), int(rng.randint(1, 4))
    X, y = rng.randn(n, p), rng.randn(n)
    ctx.struct('ridge {} {}'.format(n, p))
    beta = vb.VectorParam('beta', p)
    hyper = vb.ModelParamsDict('hyper')
    hyper.push_param(vb.ScalarParam('lambda', lb=0., val=1.5))
    hyper.push_param(vb.VectorParam('center', p, val=rng.randn(p)))

    def fun():
        e = y - np.dot(X, beta.get())
        d = beta.get() - hyper['center'].get()
        return 0.5 * np.sum(e ** 2) + 0.5 * np.sum(hyper['lambda'].get() * d ** 2)

    def solve(hv):
        return onp.linalg.solve(onp.dot(X.T, X) + hv[0] * onp.eye(p), onp.dot(X.T, y) + hv[0] * hv[1:])

    hv = onp.concatenate([[float(onp.exp(rng.randn()))], rng.randn(p)])
    in_free = bool(rng.randint(2))
    s = ctx.call('ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                 fun, beta, hyper, solve(hv), hv.copy(), input_is_free=in_free)
    S = s.get_dinput_dhyper()
    M = onp.linalg.inv(onp.dot(X.T, X) + hv[0] * onp.eye(p))
    want = onp.hstack([onp.dot(M, hv[1:] - solve(hv))[:, None], hv[0] * M])
    ctx.close('sensitivity', S, want, 1e-9 * (1 + onp.max(onp.abs(want))))
    t = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                 fun, beta, hyper, solve(hv), hv.copy(), 1, input_is_free=in_free)
    d = rng.randn(p + 1)
    ctx.close('sensitivity', t.evaluate_dkinput_dhyperk(d, 1), onp.dot(want, d), 1e-9 * (1 + onp.max(onp.abs(want)) * onp.max(onp.abs(d))))


# ---- histories: two objects over the same parameters, the caller's own
# arrays rewritten between calls, bases that hardly move.

def twin_problem(P):
    """The same problem over parameters nobody else touches."""
    par, hyp = P.spec.build(), P.hspec.build()
    return (par, hyp, lambda: P.full(optima.read(P.spec, par), optima.read(P.hspec, hyp)),
            lambda: P.hyper_part(optima.read(P.spec, par), optima.read(P.hspec, hyp)))


def next_base(ctx, P, hy0, hy_free, unit):
    """A base that is the same, very near, or elsewhere."""
    rng = ctx.rng
    k = rng.randint(4)
    if hy0 is None or k == 0:
        hy, u = P.base(hy_free)
        ctx.feat('base elsewhere')
        return hy, u
    if k == 1:
        ctx.feat('base repeated')
        return onp.array(hy0), unit
    step = 10. ** rng.uniform(-6.5, -2.)
    d = rng.uniform(-1, 1, size=hy0.size) * unit
    if rng.randint(2):
        d = d * (onp.arange(hy0.size) == rng.randint(hy0.size))
    ctx.feat('base nearby')
    return hy0 + step * d, unit


class Held(object):
    """A caller's arrays, rewritten in place and passed again."""

    def __init__(self, n, p):
        self.x, self.h = onp.zeros(n), onp.zeros(p)

    def fill(self, x, h):
        self.x[:] = x
        self.h[:] = h

    def scribble(self, rng):
        k = rng.randint(3)
        if k != 0:
            self.x *= 1.01
            self.x += 1e-3
        if k != 1:
            self.h[:] = self.h[::-1] + 1e-3


class Answers(object):
    """Arrays handed out earlier."""

    def __init__(self, ctx):
        self.ctx, self.kept = ctx, []

    def keep(self, a):
        self.kept.append((a, onp.array(a)))
        return a

    def unchanged(self, msg):
        for a, c in self.kept:
            self.ctx.same('answers stay as given', a, c, msg)


@scenario('C17', 60)
def linear_histories(ctx):
    rng = ctx.rng
    P = optima.Problem(ctx, max_in=4)
    n = {True: P.spec.free_size, False: P.spec.vector_size}
    p = {True: P.hspec.free_size, False: P.hspec.vector_size}
    par, hyp, tfun, thfun = twin_problem(P)
    held = Answers(ctx)
    objs = []
    curved = any(l.kind in ('simplex', 'subspace') for _, l in P.spec.leaves())
    for i in range(2):
        in_free, hy_free = bool(rng.randint(2)) or curved, bool(rng.randint(2))
        objs.append({'in': in_free, 'hy': hy_free, 's': None, 'hy0': None, 'unit': None,
                     'part': bool(rng.randint(2)), 'buf': Held(n[in_free], p[hy_free])})
    script = [0, 1] + [int(rng.randint(2)) for _ in range(4)]
    for step, which in enumerate(script):
        o = objs[which]
        msg = 'step {} object {} of {} <- {}'.format(step, which, P.spec.describe(), P.hspec.describe())
        if step < 2 or rng.rand() < 0.6:
            hy0, unit = next_base(ctx, P, o['hy0'], o['hy'], o['unit'])
            in0 = P.truth(hy0, o['in'], o['hy'])
            o['hy0'], o['unit'], o['in0'] = hy0, unit, in0
            o['buf'].fill(in0, hy0)
            hess0 = None
            if rng.rand() < 0.25:
                hess0 = true_hessian(P, in0, o['in'], P.hyper_vec(hy0, o['hy']))
            if o['s'] is None:
                o['s'] = ctx.call('ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                                  P.fun(), P.par, P.hyper, o['buf'].x, o['buf'].h, input_is_free=o['in'], hyper_is_free=o['hy'],
                                  hess0=hess0, hyper_par_objective_functor=P.hyper_fun() if o['part'] else None)
            else:
                ctx.call('set_base_values', o['s'].set_base_values, o['buf'].x, o['buf'].h, hess0=hess0)
            ctx.same('base arrays unchanged', o['buf'].x, in0)
            ctx.same('base arrays unchanged', o['buf'].h, hy0)
            left_at_base(ctx, P, in0, hy0, o['in'], o['hy'], msg)
            o['F'] = onp.array(sens_lib.ParametricSensitivityLinearApproximation(
                tfun, par, hyp, in0.copy(), hy0.copy(), input_is_free=o['in'], hyper_is_free=o['hy'], hess0=hess0,
                hyper_par_objective_functor=thfun if o['part'] else None).get_dinput_dhyper())
            if rng.rand() < 0.3:
                d = rng.uniform(-1, 1, size=hy0.size) * unit
                D, E = true_jac(P, hy0, unit, o['in'], o['hy'], d)
                oracles.compare(ctx, 'sensitivity', onp.dot(o['F'], d), D[1], E[1], floor=1e-9, msg=msg)
        if rng.rand() < 0.6:
            o['buf'].scribble(rng)
        if rng.rand() < 0.4:
            pollute(ctx, P.spec, P.par)
            pollute(ctx, P.hspec, P.hyper)
        held.unchanged(msg)
        for o in objs[:1] if step == 0 else objs:
            S = ctx.call('get_dinput_dhyper', o['s'].get_dinput_dhyper)
            F = o['F']
            size = 1 + onp.max(onp.abs(F))
            ctx.close('re-based', S, F, 1e-9 * size, msg)
            d = rng.uniform(-1, 1, size=o['hy0'].size) * o['unit'] * float(rng.choice([1., 1e-3]))
            got = held.keep(ctx.call('predict', o['s'].predict_input_par_from_hyperparameters, o['hy0'] + d))
            ctx.close('prediction', got, o['in0'] + onp.dot(F, (o['hy0'] + d) - o['hy0']),
                      1e-9 * (size * (1 + onp.max(onp.abs(d)) + onp.max(onp.abs(o['hy0']))) + onp.max(onp.abs(o['in0']))), msg)


class Movable(object):
    """An objective of known optimum whose surroundings change while the base
    point stays: x*(h) = x0 + C (sin(h1 + a) - sin(h0 + a)), with h1 all but
    the last component of h, which only weighs the objective."""

    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        self.n, self.p = int(rng.randint(1, 4)), int(rng.randint(1, 3))
        self.x = gen.VectorSpec('x', self.n).build()
        self.h = gen.VectorSpec('h', self.p + 1).build()
        self.x0, self.h0 = rng.randn(self.n), rng.uniform(-1, 1, size=self.p + 1)
        self.a = rng.uniform(-1, 1, size=self.p)
        self.gain, self.quart = 1., float(rng.choice([0., 0.3]))
        self.new_q()
        self.new_c()
        ctx.struct('movable {} {}'.format(self.n, self.p))

    def new_q(self):
        q = self.rng.randn(self.n, self.n) / onp.sqrt(self.n)
        self.Q = onp.dot(q, q.T) * 0.5 + onp.diag(self.rng.uniform(0.7, 1.5, size=self.n))

    def new_c(self):
        self.C = self.rng.randn(self.n, self.p)

    def fun(self):
        h1 = self.h.get()
        r = self.x.get() - self.x0 - np.dot(self.C, np.sin(h1[:-1] + self.a) - np.sin(self.h0[:-1] + self.a))
        return self.gain * np.exp(0.5 * h1[-1]) * (0.5 * np.dot(r, np.dot(self.Q, r)) + self.quart * np.sum(r ** 4))

    def change(self):
        """Whether the input and the hyperparameter stay is in the label."""
        rng = self.rng
        k = rng.randint(7)
        if k == 0:
            self.gain = float(rng.uniform(0.3, 3.))
        elif k == 1:
            if rng.randint(2):
                self.new_c()
            else:
                self.C *= -0.6
        elif k == 2:
            self.new_q()
            self.gain *= 2.
        elif k == 3:
            self.h0 = onp.append(self.h0[:-1], rng.uniform(-1, 1))
        elif k == 4:
            # Another base hyperparameter of the same optimum.
            self.h0 = rng.uniform(-1, 1, size=self.p + 1)
        elif k == 5:
            self.x0 = rng.randn(self.n)
        return ['gain', 'optimum map', 'curvature', 'weight', 'hyperparameter', 'optimum', 'nothing'][k]

    def deriv(self, d, k):
        """k-th derivative of the optimum along d."""
        u = self.h0[:-1] + self.a + 0.5 * k * onp.pi
        return onp.dot(self.C, onp.sin(u) * d[:-1] ** k)

    def jac(self):
        return onp.hstack([self.C * onp.cos(self.h0[:-1] + self.a), onp.zeros((self.n, 1))])

    def hess(self):
        return self.gain * onp.exp(0.5 * self.h0[-1]) * self.Q

    def size(self):
        return (1 + onp.max(onp.abs(self.C))) * self.p


@scenario('C17', 40)
def same_base(ctx):
    """Re-basing where the input, the hyperparameter or both stay what they
    were but the objective does not."""
    rng = ctx.rng
    M = Movable(ctx)
    s = None
    for step in range(7):
        label = M.change() if step else 'first'
        hess0 = M.hess() if rng.rand() < 0.2 else None
        if s is None or rng.rand() < 0.25:
            s = ctx.call('ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                         M.fun, M.x, M.h, M.x0, M.h0, hess0=hess0, input_is_free=bool(rng.randint(2)), hyper_is_free=bool(rng.randint(2)))
        else:
            ctx.call('set_base_values', s.set_base_values, M.x0, M.h0, hess0=hess0)
        ctx.feat('same base: ' + label)
        msg = 'step {} after {}'.format(step, label)
        ctx.close('re-based', ctx.call('get_dinput_dhyper', s.get_dinput_dhyper), M.jac(), 1e-10 * M.size(), msg)
        d = rng.uniform(-1, 1, size=M.p + 1)
        ctx.close('prediction', ctx.call('predict', s.predict_input_par_from_hyperparameters, M.h0 + d),
                  M.x0 + onp.dot(M.jac(), d), 1e-9 * (M.size() + onp.max(onp.abs(M.x0))), msg)
        if rng.rand() < 0.3:
            M.x.set(rng.randn(M.n))
            M.h.set(rng.randn(M.p + 1))


# ---------------------------------------------------------------- C18

prop('C18', rule='as for C17 with Taylor expansions of order one to seven, changes of order, re-basing, supplied Hessians and hyperparameter functors; every reported derivative and series value is compared with spectral derivatives of the true optimum',
     required=['derivative of order 1', 'derivative of order 2', 'derivative of order 3', 'series', 'series without offset', 'truncated series',
               'answers of a fresh object', 'refused', 'left at the base values'],
     assumptions=ASSUME)


@scenario('C18', 110, 1500)
def taylor(ctx):
    rng = ctx.rng
    order = [1, 2, 3, 2, 3, 2][ctx.index % 6]
    if rng.rand() < 0.06:
        order = 4
    P = optima.Problem(ctx, max_in=4 if order < 4 else 2, max_hy=2)
    in_free, hy_free = bool((ctx.index // 2) & 1), bool((ctx.index // 4) & 1)
    style, fun, hfun, box = options(ctx, P)
    ctx.feat('order {}'.format(order), 'input {} hyper {}'.format('free' if in_free else 'vector', 'free' if hy_free else 'vector'))
    hy0, unit = P.base(hy_free)
    hv = P.hyper_vec(hy0, hy_free)
    box[0] = hv
    in0 = P.truth(hy0, in_free, hy_free)
    pollute(ctx, P.spec, P.par)
    pollute(ctx, P.hspec, P.hyper)
    hess0 = None
    if rng.rand() < 0.4:
        hess0 = true_hessian(P, in0, in_free, hv)
    kw = {}
    if not (in_free and rng.rand() < 0.3):
        kw['input_is_free'] = gen.flag(rng, in_free)
    if hy_free or rng.rand() < 0.7:
        kw['hyper_is_free'] = gen.flag(rng, hy_free)
    s = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                 fun, P.par, P.hyper, onp.array(in0), onp.array(hy0), order, hess0=hess0,
                 hyper_par_objective_functor=hfun, **kw)
    msg = '{} {} order {} {} <- {}'.format(style, kw, order, P.spec.describe(), P.hspec.describe())
    check_taylor(ctx, P, s, order, in0, hy0, unit, in_free, hy_free, msg)
    r = rng.randint(4)
    if r == 0:
        order = 1 + int(rng.randint(3))
        ctx.call('set_order', s.set_order, order)
        ctx.feat('order changed')
        check_taylor(ctx, P, s, order, in0, hy0, unit, in_free, hy_free, msg + ' then order {}'.format(order))
    elif r == 1:
        hy0, unit = P.base(hy_free)
        hv = P.hyper_vec(hy0, hy_free)
        box[0] = hv
        in0 = P.truth(hy0, in_free, hy_free)
        hess0 = true_hessian(P, in0, in_free, hv) if rng.rand() < 0.4 else None
        ctx.call('set_base_values', s.set_base_values, onp.array(in0), onp.array(hy0), hess0=hess0)
        ctx.feat('re-based')
        check_taylor(ctx, P, s, order, in0, hy0, unit, in_free, hy_free, msg + ' re-based')
    elif r == 2 and order == 1:
        # The Hessian given is the one used.
        H = true_hessian(P, in0, in_free, hv)
        ctx.call('set_base_values', s.set_base_values, onp.array(in0), onp.array(hy0), hess0=4. * H)
        d = rng.uniform(-1, 1, size=hy0.size) * unit
        D, E = true_jac(P, hy0, unit, in_free, hy_free, d)
        oracles.compare(ctx, 'supplied hessian is used', s.evaluate_dkinput_dhyperk(d, 1), D[1] / 4., E[1], floor=1e-9, msg=msg)


def check_taylor(ctx, P, s, order, in0, hy0, unit, in_free, hy_free, msg):
    rng = ctx.rng
    left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg)
    d = rng.uniform(-1, 1, size=hy0.size) * unit
    D, E = true_jac(P, hy0, unit, in_free, hy_free, d, order)
    ks = list(range(1, order + 1))
    rng.shuffle(ks)
    for k in ks:
        got = ctx.call('evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, d, k)
        ctx.check('derivative shape', onp.shape(got) == in0.shape, msg)
        oracles.compare(ctx, 'derivative of order {}'.format(k), got, D[k], E[k], rel=1e-6, floor=1e-8, msg='{} k={}'.format(msg, k))
        if rng.rand() < 0.3:
            # Homogeneous of degree k in the direction.
            c = float(rng.choice([-1., 2., 0., 1e-4, 1e-8, 1e-12]))
            again = s.evaluate_dkinput_dhyperk(c * d, k)
            ctx.close('derivative is homogeneous', again, c ** k * onp.asarray(got), 1e-8 * abs(c) ** k * (1 + onp.max(onp.abs(got))), msg)
    left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg)
    for upto in ([None] + [int(rng.randint(1, order + 1))]):
        top = order if upto is None else upto
        want = sum(D[k] / math.factorial(k) for k in range(1, top + 1))
        err = sum(E[k] / math.factorial(k) for k in range(1, top + 1))
        mon = 'series' if upto is None else 'truncated series'
        kw = {} if upto is None else {'max_order': upto}
        off = ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d, **kw)
        ctx.check('series shape', onp.shape(off) == in0.shape, msg)
        oracles.compare(ctx, mon, onp.asarray(off) - in0, want, err + 1e-15 * onp.max(onp.abs(in0)), rel=1e-6, floor=1e-8, msg=msg)
        non = ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d, add_offset=False, **kw)
        oracles.compare(ctx, 'series without offset', non, want, err, rel=1e-6, floor=1e-8, msg=msg)
        if rng.rand() < 0.4:
            # A step of any size, however small.
            c = 10. ** rng.uniform(-13, -3)
            tiny = ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, c * d, add_offset=False, **kw)
            parts = [c ** k * onp.asarray(s.evaluate_dkinput_dhyperk(d, k)) / math.factorial(k) for k in range(1, top + 1)]
            ctx.close('series of a small step', tiny, sum(parts), 1e-8 * c * (1 + onp.max(onp.abs(parts[0])) / c), msg)
    left_at_base(ctx, P, in0, hy0, in_free, hy_free, msg)
    for k in (0, -1, order + 1):
        ctx.refused('refused', lambda: s.evaluate_dkinput_dhyperk(d, k), 'derivative of order {} of {}'.format(k, order))
        ctx.refused('refused', lambda: s.evaluate_taylor_series(d, max_order=k), 'series to order {} of {}'.format(k, order))
    lst = getattr(s, 'dkinput_dhyperk_list', None)
    if lst is not None:
        k = int(rng.randint(len(lst)))
        bump = onp.zeros(in0.size)
        bump[rng.randint(in0.size)] = float(rng.choice([1e-3, -1e-2]))
        ctx.refused('evaluation away from the base point refused', lambda: lst[k](in0 + bump, hy0, d), 'input moved')
        bump = onp.zeros(hy0.size)
        bump[rng.randint(hy0.size)] = float(rng.choice([1e-3, -1e-2]))
        ctx.refused('evaluation away from the base point refused', lambda: lst[k](in0, hy0 + bump, d), 'hyperparameter moved')
        got = lst[k](in0, hy0, d)
        ctx.close('evaluation at the base point', got, s.evaluate_dkinput_dhyperk(d, k + 1), 1e-9 * (1 + onp.max(onp.abs(got))), msg)


@scenario('C18', 50)
def taylor_histories(ctx):
    rng = ctx.rng
    P = optima.Problem(ctx, max_in=3, max_hy=2)
    n = {True: P.spec.free_size, False: P.spec.vector_size}
    p = {True: P.hspec.free_size, False: P.hspec.vector_size}
    par, hyp, tfun, thfun = twin_problem(P)
    held = Answers(ctx)
    objs = []
    curved = any(l.kind in ('simplex', 'subspace') for _, l in P.spec.leaves())
    for i in range(2):
        in_free, hy_free = bool(rng.randint(2)) or curved, bool(rng.randint(2))
        objs.append({'in': in_free, 'hy': hy_free, 's': None, 'hy0': None, 'unit': None, 'order': 1 + int(rng.randint(2)),
                     'part': bool(rng.randint(2)), 'buf': Held(n[in_free], p[hy_free])})
    script = [0, 1] + [int(rng.randint(2)) for _ in range(4)]
    for step, which in enumerate(script):
        o = objs[which]
        msg = 'step {} object {} of {} <- {}'.format(step, which, P.spec.describe(), P.hspec.describe())
        k = rng.randint(4)
        if step < 2 or k < 2:
            hy0, unit = next_base(ctx, P, o['hy0'], o['hy'], o['unit'])
            in0 = P.truth(hy0, o['in'], o['hy'])
            o['hy0'], o['unit'], o['in0'] = hy0, unit, in0
            o['buf'].fill(in0, hy0)
            o['hess0'] = None
            if rng.rand() < 0.25:
                o['hess0'] = true_hessian(P, in0, o['in'], P.hyper_vec(hy0, o['hy']))
            if o['s'] is None:
                o['s'] = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                                  P.fun(), P.par, P.hyper, o['buf'].x, o['buf'].h, o['order'], input_is_free=o['in'], hyper_is_free=o['hy'],
                                  hess0=o['hess0'], hyper_par_objective_functor=P.hyper_fun() if o['part'] else None)
            else:
                ctx.call('set_base_values', o['s'].set_base_values, o['buf'].x, o['buf'].h, hess0=o['hess0'])
                ctx.feat('re-based in a history')
            ctx.same('base arrays unchanged', o['buf'].x, in0)
            ctx.same('base arrays unchanged', o['buf'].h, hy0)
            left_at_base(ctx, P, in0, hy0, o['in'], o['hy'], msg)
            o['fresh'] = None
        elif k == 2:
            o['order'] = 1 + int(rng.randint(3 if n[o['in']] <= 2 else 2))
            ctx.call('set_order', o['s'].set_order, o['order'])
            ctx.feat('order changed in a history')
            o['fresh'] = None
        if rng.rand() < 0.6:
            o['buf'].scribble(rng)
        if rng.rand() < 0.4:
            pollute(ctx, P.spec, P.par)
            pollute(ctx, P.hspec, P.hyper)
        held.unchanged(msg)
        seen = objs[:1] if step == 0 else objs
        for o in seen if rng.randint(2) else seen[::-1]:
            if o['fresh'] is None:
                o['fresh'] = sens_lib.ParametricSensitivityTaylorExpansion(
                    tfun, par, hyp, o['in0'].copy(), o['hy0'].copy(), o['order'], input_is_free=o['in'], hyper_is_free=o['hy'],
                    hess0=o['hess0'], hyper_par_objective_functor=thfun if o['part'] else None)
            d = rng.uniform(-1, 1, size=o['hy0'].size) * o['unit'] * float(rng.choice([1., 1e-2]))
            keep = d.copy()
            k = 1 + int(rng.randint(o['order']))
            want = onp.array(o['fresh'].evaluate_dkinput_dhyperk(d, k))
            got = held.keep(ctx.call('evaluate_dkinput_dhyperk', o['s'].evaluate_dkinput_dhyperk, d, k))
            ctx.close('answers of a fresh object', got, want, 1e-9 * onp.max(onp.abs(want)) + 1e-13, msg)
            left_at_base(ctx, P, o['in0'], o['hy0'], o['in'], o['hy'], msg)
            off = bool(rng.randint(2))
            want = onp.array(o['fresh'].evaluate_taylor_series(d, add_offset=off, max_order=k))
            got = held.keep(ctx.call('evaluate_taylor_series', o['s'].evaluate_taylor_series, d, add_offset=off, max_order=k))
            ctx.close('answers of a fresh object', got, want, 1e-9 * onp.max(onp.abs(want)) + 1e-13, msg)
            left_at_base(ctx, P, o['in0'], o['hy0'], o['in'], o['hy'], msg)
            ctx.same('base arrays unchanged', d, keep)
            if rng.rand() < 0.25:
                D, E = true_jac(P, o['hy0'], o['unit'], o['in'], o['hy'], d, o['order'])
                w = sum(D[j] / math.factorial(j) for j in range(1, k + 1)) + (o['in0'] if off else 0.)
                e = sum(E[j] / math.factorial(j) for j in range(1, k + 1))
                oracles.compare(ctx, 'truncated series', got, w, e + 1e-15 * onp.max(onp.abs(o['in0'])), rel=1e-6, floor=1e-8, msg=msg)


# Series about zero with many vanishing terms: the function and its k-th
# derivative at zero.
LACUNARY = {
    'linear': (lambda u: u, lambda k: 1. if k == 1 else 0.),
    'square': (lambda u: u ** 2, lambda k: 2. if k == 2 else 0.),
    'cube': (lambda u: u ** 3, lambda k: 6. if k == 3 else 0.),
    'fourth': (lambda u: u ** 4, lambda k: 24. if k == 4 else 0.),
    'sin': (lambda u: np.sin(u), lambda k: (-1.) ** (k // 2) if k % 2 else 0.),
    'cos': (lambda u: np.cos(u) - 1., lambda k: 0. if k % 2 else (-1.) ** (k // 2)),
    'none': (lambda u: 0. * u, lambda k: 0.),
}


@scenario('C18', 30, 600)
def vanishing(ctx):
    """Optima whose Taylor series have vanishing terms, in closed form."""
    rng = ctx.rng
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    order = 2 + ctx.index % 3
    if n * order > 8:
        n = 2
    kinds = sorted(LACUNARY)
    if rng.rand() < 0.7:
        kinds = [kinds[rng.randint(len(kinds))]]
    terms = [(kinds[rng.randint(len(kinds))], rng.randn(n), rng.randn(p)) for _ in range(int(rng.randint(1, 3)))]
    if rng.rand() < 0.5:
        # Some components do not depend on the hyperparameter.
        for _, c, w in terms:
            c[rng.randint(n)] = 0.
            w[rng.randint(p)] = 0.
    x0, h0 = rng.randn(n), rng.randn(p)
    unit = 10. ** float(rng.choice([0, 0, -3, 3]))
    q = rng.randn(n, n) / onp.sqrt(n)
    Q = onp.dot(q, q.T) * 0.5 + onp.diag(rng.uniform(0.7, 1.5, size=n))
    b = rng.randn(p) * float(rng.choice([0., 0.4]))
    quart = float(rng.choice([0., 0.3]))
    x = gen.VectorSpec('x', n).build()
    h = gen.VectorSpec('h', p).build()
    ctx.struct('vanishing {} order {}'.format([t[0] for t in terms], order))

    def fun():
        e = (h.get() - h0) / unit
        r = x.get() - x0
        for kind, c, w in terms:
            r = r - c * LACUNARY[kind][0](np.dot(w, e))
        return 0.5 * np.dot(r, np.dot(Q, r)) * (1. + 0.3 * np.sin(np.dot(b, e))) + quart * np.sum(r ** 4)
    s = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                 fun, x, h, x0.copy(), h0.copy(), order,
                 hess0=onp.array(Q, order='F') if rng.randint(2) else None)
    msg = 'terms {} order {} of {} <- {}'.format(terms, order, n, p)
    for _ in range(2):
        d = rng.uniform(-1, 1, size=p)
        if rng.rand() < 0.15:
            d[:] = 0.
        D, M = [], []
        for k in range(order + 1):
            D.append(sum([c * LACUNARY[kind][1](k) * onp.dot(w, d) ** k for kind, c, w in terms]))
            M.append(sum([onp.max(onp.abs(c)) for _, c, w in terms]) + 1e-3)
        tol = 1e-12 * 6 ** order * max(M) * (1 + max(onp.sum(onp.abs(w)) for _, _, w in terms)) ** order
        for k in [int(j) for j in rng.permutation(onp.arange(1, order + 1))]:
            got = ctx.call('evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, d * unit, k)
            ctx.close('derivative of order {}'.format(k), got, D[k], tol, msg)
            got = ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d * unit, add_offset=False, max_order=k)
            ctx.close('truncated series', got, sum(D[j] / math.factorial(j) for j in range(1, k + 1)), tol, msg)
        got = ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d * unit)
        ctx.close('series', got, x0 + sum(D[j] / math.factorial(j) for j in range(1, order + 1)), tol, msg)


# Functions of one variable whose derivatives of every order are known.
SMOOTH = {
    'sin': (lambda u: np.sin(u), lambda u, k: onp.sin(u + 0.5 * k * onp.pi)),
    'exp': (lambda u: np.exp(u), lambda u, k: onp.exp(u)),
    'log': (lambda u: np.log(3. + u), lambda u, k: onp.log(3. + u) if k == 0 else -math.factorial(k - 1) * (-1. / (3. + u)) ** k),
    'linear': (lambda u: u, lambda u, k: u if k == 0 else 1. * (k == 1)),
    'fifth': (lambda u: u ** 5, lambda u, k: onp.prod(5. - onp.arange(k)) * u ** max(5 - k, 0)),
}


@scenario('C18', 16, 200)
def high_orders(ctx):
    """Expansions of order five and more.  The objective is half the squared
    distance between sinh of the input and sinh of the wanted optimum, so
    its derivatives of every order are nonzero there."""
    rng = ctx.rng
    order = [5, 5, 6, 5][ctx.index % 4]
    n, p = (1, 1) if order == 6 else [(1, 1), (1, 2), (2, 1)][rng.randint(3)]
    if ctx.tier == 'thorough' and ctx.index % 25 == 3:
        order = 7
    kinds = [sorted(SMOOTH)[rng.randint(len(SMOOTH))] for _ in range(n)]
    W = rng.uniform(-1, 1, size=(n, p))
    h0, c = rng.uniform(-0.5, 0.5, size=p), rng.uniform(-0.3, 0.3, size=n)
    warp = float(rng.choice([0.3, 0.7]))
    x, h = gen.VectorSpec('x', n).build(), gen.VectorSpec('h', p).build()
    ctx.struct('order {} {} <- {} {}'.format(order, n, p, kinds))

    def target():
        u = np.dot(W, h.get())
        return np.array([c[i] + SMOOTH[kinds[i]][0](u[i]) for i in range(n)])

    def fun():
        z = x.get()
        r = np.sinh(warp * z) - np.sinh(warp * target())
        return 0.5 * np.sum(r ** 2) / warp ** 2 + (0.2 * r[0] * r[1] / warp ** 2 if n > 1 else 0.)
    u0 = onp.dot(W, h0)
    x0 = onp.array([c[i] + SMOOTH[kinds[i]][1](u0[i], 0) for i in range(n)])
    # Expanded at once, or one order after another.
    first = order if rng.randint(2) else int(rng.randint(1, order))
    s = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion, fun, x, h, x0.copy(), h0.copy(), first)
    if first != order:
        ctx.call('set_order', s.set_order, order)
    msg = '{} order {} of {} <- {}'.format(kinds, order, n, p)
    d = rng.uniform(0.3, 1, size=p) * rng.choice([-1., 1.], size=p)
    D = [onp.array([SMOOTH[kinds[i]][1](u0[i], k) for i in range(n)]) * onp.dot(W, d) ** k for k in range(order + 1)]
    tol = 1e-12 * 20 ** order
    for k in [int(j) for j in rng.permutation(onp.arange(1, order + 1))]:
        ctx.close('derivative of order {}'.format(k), ctx.call('evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, d, k), D[k], 1e-12 * 20 ** k, msg)
    off = bool(rng.randint(2))
    k = int(rng.randint(4, order + 1))
    ctx.close('truncated series', ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d, add_offset=off, max_order=k),
              sum(D[j] / math.factorial(j) for j in range(1, k + 1)) + (x0 if off else 0.), tol, msg)
    ctx.close('series', ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d),
              sum(D[j] / math.factorial(j) for j in range(1, order + 1)) + x0, tol, msg)
    ctx.refused('refused', lambda: s.evaluate_dkinput_dhyperk(d, order + 1), 'beyond the order')


class Curvatures:
    """Separate coordinates whose curvatures differ by many orders of
    magnitude: half the sum of s_i (x_i - t_i(h))^2.  Every derivative of
    the optimum is the derivative of t, whatever the curvatures are."""

    def __init__(self, ctx, max_order):
        rng = ctx.rng
        self.n = n = int(rng.randint(1, 5))
        self.p = p = int(rng.randint(1, 4))
        self.kinds = [sorted(SMOOTH)[rng.randint(len(SMOOTH))] for _ in range(n)]
        spread = [4., 0., 2., 5.][ctx.index % 4]
        self.s = 10. ** (rng.uniform(-spread, spread, size=n) + rng.choice([0., 0., -8., 7.]))
        self.W = rng.uniform(-1, 1, size=(n, p))
        self.c = rng.uniform(-0.3, 0.3, size=n)
        # The coordinates are measured in units of their own.
        self.size = 10. ** (rng.uniform(-6, 6, size=n) if rng.randint(2) else onp.zeros(n))
        self.s = self.s / self.size ** 2
        self.x, self.h = gen.VectorSpec('x', n).build(), gen.VectorSpec('h', p).build()
        self.d = rng.uniform(0.3, 1, size=p) * rng.choice([-1., 1.], size=p)
        self.max_order = max_order
        self.msg = '{} <- {} curvatures {}'.format(self.kinds, p, self.s)
        ctx.struct('{} <- {} {} spread {}'.format(n, p, self.kinds, spread))

    def fun(self):
        u = np.dot(self.W, self.h.get())
        t = np.array([self.size[i] * (self.c[i] + SMOOTH[self.kinds[i]][0](u[i])) for i in range(self.n)])
        return 0.5 * np.sum(self.s * (self.x.get() - t) ** 2)

    def optimum(self, h0):
        u = onp.dot(self.W, h0)
        return self.size * onp.array([self.c[i] + SMOOTH[self.kinds[i]][1](u[i], 0) for i in range(self.n)])

    def jac(self, h0):
        u = onp.dot(self.W, h0)
        return onp.array([self.size[i] * SMOOTH[self.kinds[i]][1](u[i], 1) * self.W[i] for i in range(self.n)])

    def derivs(self, h0):
        u = onp.dot(self.W, h0)
        return [self.size * onp.array([SMOOTH[self.kinds[i]][1](u[i], k) for i in range(self.n)]) * onp.dot(self.W, self.d) ** k
                for k in range(self.max_order + 1)]


@scenario('C17', 60)
def curvatures(ctx):
    rng = ctx.rng
    P = Curvatures(ctx, 1)
    s = None
    for _ in range(int(rng.randint(1, 4))):
        h0 = rng.uniform(-0.5, 0.5, size=P.p)
        x0, J = P.optimum(h0), P.jac(h0)
        hess0 = [None, onp.diag(P.s)][rng.randint(2)]
        if s is None:
            s = ctx.call('ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                         P.fun, P.x, P.h, x0.copy(), h0.copy(), hess0=hess0)
        else:
            ctx.call('set_base_values', s.set_base_values, x0.copy(), h0.copy(), hess0=hess0)
        ctx.close('sensitivity', ctx.call('get_dinput_dhyper', s.get_dinput_dhyper), J, 1e-9 * P.size[:, None], P.msg)
        d = P.d * rng.choice([0., 1e-3, 1.])
        ctx.close('prediction', ctx.call('predict', s.predict_input_par_from_hyperparameters, h0 + d),
                  x0 + onp.dot(J, d), 1e-9 * P.size, P.msg)


@scenario('C18', 60)
def curvatures_series(ctx):
    rng = ctx.rng
    order = int(rng.randint(1, 5))
    P = Curvatures(ctx, order)
    s = None
    for _ in range(int(rng.randint(1, 3))):
        h0 = rng.uniform(-0.5, 0.5, size=P.p)
        x0, D = P.optimum(h0), P.derivs(h0)
        hess0 = [None, onp.diag(P.s)][rng.randint(2)]
        if s is None:
            s = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                         P.fun, P.x, P.h, x0.copy(), h0.copy(), order, hess0=hess0)
        else:
            ctx.call('set_base_values', s.set_base_values, x0.copy(), h0.copy(), hess0=hess0)
        for k in [int(j) for j in rng.permutation(onp.arange(1, order + 1))]:
            ctx.close('derivative of order {}'.format(k), ctx.call('evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, P.d, k),
                      D[k], 1e-10 * 20 ** k * P.size, P.msg)
        ctx.close('series', ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, P.d),
                  sum(D[j] / math.factorial(j) for j in range(1, order + 1)) + x0, 1e-10 * 20 ** order * P.size, P.msg)


@scenario('C20', 40)
def curvatures_legacy(ctx):
    rng = ctx.rng
    P = Curvatures(ctx, 1)
    out = gen.VectorSpec('out', P.n + 1).build()
    A = rng.randn(P.n + 1, P.n) / P.size

    def converter():
        out.set(np.dot(A, P.x.get()) + 0.1 * np.dot(A, P.x.get() ** 2 / P.size))
    s = None
    for _ in range(int(rng.randint(1, 4))):
        h0 = rng.uniform(-0.5, 0.5, size=P.p)
        x0, J = P.optimum(h0), P.jac(h0)
        hess = [None, onp.diag(P.s)][rng.randint(2)]
        P.h.set_vector(h0.copy())
        if s is None:
            s = ctx.call('ParametricSensitivity', obj_lib.ParametricSensitivity, P.fun, P.x, out, P.h, converter,
                         optimal_input_par=x0.copy(), objective_hessian=hess)
        else:
            ctx.call('set_optimal_input_par', s.set_optimal_input_par, x0.copy(), hess)
        T = onp.dot(A * (1 + 0.2 * x0 / P.size), J)
        ctx.close('input sensitivity', ctx.call('get_dinput_dhyper', s.get_dinput_dhyper), J, 1e-9 * P.size[:, None], P.msg)
        ctx.close('output sensitivity', ctx.call('get_doutput_dhyper', s.get_doutput_dhyper), T, 1e-8, P.msg)
        new = x0 + onp.dot(J, P.d)
        ctx.close('input prediction', ctx.call('predict_input', s.predict_input_par_from_hyperparameters, h0 + P.d), new, 1e-9 * P.size, P.msg)
        ctx.close('linear output prediction', ctx.call('predict_output linear', s.predict_output_par_from_hyperparameters, h0 + P.d, True),
                  onp.dot(A, x0 + 0.1 * x0 ** 2 / P.size) + onp.dot(T, P.d), 1e-8, P.msg)
        ctx.close('output prediction through the conversion', ctx.call('predict_output', s.predict_output_par_from_hyperparameters, h0 + P.d, False),
                  onp.dot(A, new + 0.1 * new ** 2 / P.size), 1e-8, P.msg)


@scenario('C18', 30)
def same_base_series(ctx):
    rng = ctx.rng
    M = Movable(ctx)
    s, order = None, 1
    for step in range(6):
        label = M.change() if step else 'first'
        hess0 = M.hess() if rng.rand() < 0.2 else None
        if s is None or rng.rand() < 0.25:
            order = 1 + int(rng.randint(3))
            s = ctx.call('ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                         M.fun, M.x, M.h, M.x0, M.h0, order, hess0=hess0,
                         input_is_free=bool(rng.randint(2)), hyper_is_free=bool(rng.randint(2)))
        else:
            ctx.call('set_base_values', s.set_base_values, M.x0, M.h0, hess0=hess0)
            if rng.rand() < 0.3:
                order = 1 + int(rng.randint(3))
                ctx.call('set_order', s.set_order, order)
        ctx.feat('same base: ' + label)
        msg = 'step {} order {} after {}'.format(step, order, label)
        for d in [rng.uniform(-1, 1, size=M.p + 1)] * 2:
            for k in range(1, order + 1):
                ctx.close('derivative of order {}'.format(k), ctx.call('evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, d, k),
                          M.deriv(d, k), 1e-9 * 4 ** k * M.size(), msg)
            ctx.close('series', ctx.call('evaluate_taylor_series', s.evaluate_taylor_series, d),
                      M.x0 + sum(M.deriv(d, j) / math.factorial(j) for j in range(1, order + 1)), 1e-8 * (M.size() + onp.max(onp.abs(M.x0))), msg)
        if rng.rand() < 0.3:
            M.x.set(rng.randn(M.n))
            M.h.set(rng.randn(M.p + 1))


# ---------------------------------------------------------------- C20

prop('C20', rule='random input, output and hyperparameters with random smooth objectives of known optimum and random smooth conversions; explicit and implicit optimum, supplied Hessian and functor, re-basing; compared with spectral derivatives of the true optimum and of the output at it',
     required=['input sensitivity', 'output sensitivity', 'input prediction', 'linear output prediction', 'output prediction through the conversion',
               'output prediction is first order', 're-based', 'answers of a fresh object'],
     assumptions=ASSUME)


@scenario('C20', 120)
def legacy(ctx):
    rng = ctx.rng
    P = optima.Problem(ctx, max_in=5)
    ospec = gen.rand_spec(rng, ctx, big=False, name='out', index=ctx.index // 3 + 1, max_free=5,
                          kinds=[k for k in gen.LEAF_KINDS if k not in ('simplex', 'subspace')] + ['uvn', 'mvn', 'dict'])
    while any(l.kind in ('simplex', 'subspace') for _, l in ospec.leaves()):
        ospec = gen.rand_leaf(rng, 'out', 'vector', big=False)
    out, otwin = ospec.build(), ospec.build()
    otwin.set_free(rng.uniform(-1, 1, size=ospec.free_size))
    ovalue = ospec.get_value(otwin)
    ov0, om = ospec.pack(ovalue), functors.vec_margin(ospec, ovalue)
    C1 = rng.randn(ospec.vector_size, P.v0.size)
    style_set = rng.randint(2)
    of0 = onp.array(otwin.get_free())
    C2 = rng.randn(ospec.free_size, P.v0.size)

    def conv_vec(vec):
        r = (vec - P.v0) / P.w
        if style_set:
            return ov0 + 0.5 * om * np.tanh(0.7 * np.dot(C1, r) + 0.2 * np.dot(C1, r ** 2))
        return of0 + 0.5 * np.tanh(0.5 * np.dot(C2, r) + 0.2 * np.dot(C2, r ** 2))

    def converter():
        (out.set_vector if style_set else out.set_free)(conv_vec(optima.read(P.spec, P.par)))

    def true_out(vec):
        """Output vector at an input vector, on twins."""
        (otwin.set_vector if style_set else otwin.set_free)(onp.array(conv_vec(vec), float))
        return onp.array(otwin.get_vector())

    style, fun, hfun, box = options(ctx, P)
    s = None
    for base in range(int(rng.randint(1, 4))):
        hy0, unit = P.base(False)
        box[0] = hy0
        in0 = P.truth(hy0, True, False)
        H = true_hessian(P, in0, True, hy0)
        hess, scale = [(None, 1.), (None, 1.), (H, 1.), (2. * H, 0.5)][rng.randint(4)]
        P.hyper.set_vector(hy0)
        explicit = bool(rng.randint(2))
        pollute(ctx, ospec, out)
        if explicit:
            if rng.rand() < 0.7:
                P.par.set_free(gen.rand_free(rng, P.spec).clip(-1, 1))
            opt = onp.array(in0)
        else:
            P.par.set_free(in0)
            opt = None
        ctx.feat('explicit optimum' if explicit else 'optimum from state')
        if s is None:
            s = ctx.call('ParametricSensitivity', obj_lib.ParametricSensitivity, fun, P.par, out, P.hyper, converter,
                         optimal_input_par=opt, objective_hessian=hess, hyper_par_objective_fun=hfun)
        else:
            ctx.call('set_optimal_input_par', s.set_optimal_input_par, opt, hess)
            ctx.monitors['re-based'] += 1
        msg = '{} {} -> {} <- {}'.format(style, P.spec.describe(), ospec.describe(), P.hspec.describe())
        S = onp.array(ctx.call('get_dinput_dhyper', s.get_dinput_dhyper))
        T = onp.array(ctx.call('get_doutput_dhyper', s.get_doutput_dhyper))
        ctx.check('sensitivity shape', S.shape == (in0.size, hy0.size) and T.shape == (ov0.size, hy0.size), msg)
        omag = 20. * (onp.max(onp.abs(ov0)) + onp.max(om) * (1 + onp.max(onp.abs(P.v0) / P.w)))
        out0 = true_out(P.optimum(hy0))
        for _ in range(2):
            d = rng.uniform(-1, 1, size=hy0.size) * unit
            D, E = true_jac(P, hy0, unit, True, False, d)
            oracles.compare(ctx, 'input sensitivity', onp.dot(S, d), scale * D[1], E[1], floor=1e-9, msg=msg)
            D2, E2 = oracles.derivs(lambda t: true_out(P.optimum(hy0 + t * d)), 1, RADIUS, mag=omag)
            oracles.compare(ctx, 'output sensitivity', onp.dot(T, d), scale * D2[1], E2[1], floor=1e-9, msg=msg)
            new = hy0 + d
            got = ctx.call('predict_input', s.predict_input_par_from_hyperparameters, new)
            want = in0 + onp.dot(S, new - hy0)
            size = 1 + onp.max(onp.abs(want)) + onp.max(onp.abs(S)) * onp.max(onp.abs(d))
            ctx.close('input prediction', got, want, 1e-9 * size, msg)
            lin = ctx.call('predict_output linear', s.predict_output_par_from_hyperparameters, new, gen.flag(rng, True))
            wl = out0 + onp.dot(T, new - hy0)
            ctx.close('linear output prediction', lin, wl,
                      1e-9 * (1 + onp.max(onp.abs(wl)) + onp.max(onp.abs(T)) * onp.max(onp.abs(d))), msg)
            non = ctx.call('predict_output', s.predict_output_par_from_hyperparameters, new, gen.flag(rng, False))
            P.twin.set_free(want)
            if onp.max(onp.abs(want)) < 8:
                wn = true_out(onp.array(P.twin.get_vector()))
                ctx.close('output prediction through the conversion', non, wn, 1e-8 * (1 + onp.max(onp.abs(wn))), msg)
            small = oracles.derivs(lambda t: s.predict_output_par_from_hyperparameters(hy0 + t * d, False), 1, 0.1, mag=omag)
            oracles.compare(ctx, 'output prediction is first order', small[0][1], scale * D2[1], small[1][1] + E2[1], rel=1e-6, floor=1e-9, msg=msg)


@scenario('C20', 50)
def legacy_histories(ctx):
    """The caller's arrays rewritten between calls, bases that hardly move,
    and a second object over the same parameters."""
    rng = ctx.rng
    P = optima.Problem(ctx, max_in=4)
    ospec = gen.rand_leaf(rng, 'out', ['vector', 'array', 'scalar', 'posdef'][ctx.index % 4], big=False)
    par, hyp, tfun, thfun = twin_problem(P)
    out, tout = ospec.build(), ospec.build()
    C = rng.randn(ospec.free_size, P.v0.size)
    of0 = rng.uniform(-1, 1, size=ospec.free_size)

    def converter(a, b):
        def convert():
            r = (optima.read(P.spec, a) - P.v0) / P.w
            b.set_free(of0 + 0.5 * np.tanh(0.5 * np.dot(C, r) + 0.2 * np.dot(C, r ** 2)))
        return convert
    held = Answers(ctx)
    objs = [{'s': None, 'hy0': None, 'unit': None, 'part': bool(rng.randint(2)),
             'buf': Held(P.spec.free_size, P.hspec.vector_size)} for _ in range(2)]
    script = [0, 1] + [int(rng.randint(2)) for _ in range(4)]
    for step, which in enumerate(script):
        o = objs[which]
        msg = 'step {} object {} of {} -> {} <- {}'.format(step, which, P.spec.describe(), ospec.describe(), P.hspec.describe())
        if step < 2 or rng.rand() < 0.6:
            hy0, unit = next_base(ctx, P, o['hy0'], False, o['unit'])
            in0 = P.truth(hy0, True, False)
            o['hy0'], o['unit'], o['in0'] = hy0, unit, in0
            o['buf'].fill(in0, hy0)
            hess = true_hessian(P, in0, True, hy0) if rng.rand() < 0.25 else None
            P.hyper.set_vector(hy0.copy())
            hyp.set_vector(hy0.copy())
            opt = o['buf'].x
            if rng.rand() < 0.3:
                P.par.set_free(in0.copy())
                opt = None
            if o['s'] is None:
                o['s'] = ctx.call('ParametricSensitivity', obj_lib.ParametricSensitivity, P.fun(), P.par, out, P.hyper, converter(P.par, out),
                                  optimal_input_par=opt, objective_hessian=hess, hyper_par_objective_fun=P.hyper_fun() if o['part'] else None)
            else:
                ctx.call('set_optimal_input_par', o['s'].set_optimal_input_par, opt, hess)
                ctx.monitors['re-based'] += 1
            ctx.same('base arrays unchanged', o['buf'].x, in0)
            o['fresh'] = obj_lib.ParametricSensitivity(tfun, par, tout, hyp, converter(par, tout), optimal_input_par=in0.copy(),
                                                       objective_hessian=hess, hyper_par_objective_fun=thfun if o['part'] else None)
        if rng.rand() < 0.6:
            o['buf'].scribble(rng)
        if rng.rand() < 0.4:
            pollute(ctx, P.spec, P.par)
            pollute(ctx, P.hspec, P.hyper)
            pollute(ctx, ospec, out)
        held.unchanged(msg)
        for o in objs[:1] if step == 0 else objs:
            f = o['fresh']
            new = o['hy0'] + rng.uniform(-1, 1, size=o['hy0'].size) * o['unit'] * float(rng.choice([1., 1e-3]))
            keep = new.copy()
            pairs = [(o['s'].get_dinput_dhyper(), f.get_dinput_dhyper()), (o['s'].get_doutput_dhyper(), f.get_doutput_dhyper()),
                     (held.keep(o['s'].predict_input_par_from_hyperparameters(new)), f.predict_input_par_from_hyperparameters(new)),
                     (held.keep(o['s'].predict_output_par_from_hyperparameters(new, True)), f.predict_output_par_from_hyperparameters(new, True))]
            size = 1 + max(onp.max(onp.abs(w)) for _, w in pairs)
            if onp.max(onp.abs(pairs[2][1])) < 8:
                pairs.append((held.keep(o['s'].predict_output_par_from_hyperparameters(new, False)), f.predict_output_par_from_hyperparameters(new, False)))
            ctx.ev('answers', len(pairs))
            for got, want in pairs:
                ctx.close('answers of a fresh object', got, want, 1e-9 * (size + onp.max(onp.abs(want))), msg)
            ctx.same('base arrays unchanged', new, keep)


@scenario('C20', 40)
def same_optimum(ctx):
    """Re-basing at the same optimum, hyperparameter or both, with another
    objective or another conversion."""
    rng = ctx.rng
    M = Movable(ctx)
    out = gen.VectorSpec('out', 2).build()
    box = {'A': rng.randn(2, M.n), 'b': rng.randn(2)}

    def convert():
        out.set(np.sin(np.dot(box['A'], M.x.get())) + box['b'])
    s = None
    for step in range(7):
        label = M.change() if step else 'first'
        if rng.rand() < 0.3:
            label += ' and conversion'
            if rng.randint(2):
                box['A'] *= -0.7
            else:
                box['A'] = rng.randn(2, M.n)
        hess = M.hess() if rng.rand() < 0.2 else None
        M.h.set_vector(onp.array(M.h0))
        opt = M.x0
        if rng.rand() < 0.3:
            M.x.set_free(onp.array(M.x0))
            opt = None
        if s is None or rng.rand() < 0.25:
            s = ctx.call('ParametricSensitivity', obj_lib.ParametricSensitivity, M.fun, M.x, out, M.h, convert,
                         optimal_input_par=opt, objective_hessian=hess)
        else:
            ctx.call('set_optimal_input_par', s.set_optimal_input_par, opt, hess)
            ctx.monitors['re-based'] += 1
        msg = 'step {} after {}'.format(step, label)
        S = M.jac()
        J = onp.cos(onp.dot(box['A'], M.x0))[:, None] * box['A']
        size = M.size() * (1 + onp.max(onp.abs(J)))
        ctx.close('input sensitivity', ctx.call('get_dinput_dhyper', s.get_dinput_dhyper), S, 1e-10 * size, msg)
        ctx.close('output sensitivity', ctx.call('get_doutput_dhyper', s.get_doutput_dhyper), onp.dot(J, S), 1e-10 * size, msg)
        new = M.h0 + rng.uniform(-1, 1, size=M.p + 1)
        d = new - M.h0
        out0 = onp.sin(onp.dot(box['A'], M.x0)) + box['b']
        xin = M.x0 + onp.dot(S, d)
        size = size + onp.max(onp.abs(M.x0)) + onp.max(onp.abs(out0))
        ctx.close('input prediction', ctx.call('predict', s.predict_input_par_from_hyperparameters, new), xin, 1e-9 * size, msg)
        ctx.close('linear output prediction', ctx.call('predict', s.predict_output_par_from_hyperparameters, new, True),
                  out0 + onp.dot(J, onp.dot(S, d)), 1e-9 * size, msg)
        ctx.close('output prediction through the conversion', ctx.call('predict', s.predict_output_par_from_hyperparameters, new, False),
                  onp.sin(onp.dot(box['A'], xin)) + box['b'], 1e-8 * size * (1 + onp.max(onp.abs(box['A']))), msg)
        if rng.rand() < 0.3:
            M.x.set(rng.randn(M.n))
            M.h.set(rng.randn(M.p + 1))
            out.set(rng.randn(2))
