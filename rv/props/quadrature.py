"""C28: quadrature and sampled expectations."""
import math
import autograd
import numpy as np
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as modeling

from core import scenario, prop
import gen
import quad

prop('C28', rule='random means, informations and degrees over arrays of dimension zero to four and every memory layout; polynomials of every degree below twice the number of nodes, generic functions, logit, log-logit, logistic and Dirichlet-process terms, both aggregated and not; draws of every count. Exact moments by recursion, the weighted sum over exactly the supplied nodes or draws in extended-range arithmetic, and (for smooth enough cases) the integral itself by an independent rule',
     required=['polynomial exact', 'weighted sum', 'integral', 'logit', 'log logit', 'dp prior', 'draw average', 'hermite logistic',
               'aggregation', 'gradient', 'draws count', 'draws quantiles', 'draws symmetric', 'draws increasing', 'arguments unchanged'],
     assumptions=['the Gauss-Hermite nodes given are those of numpy, which the polynomial monitor itself confirms',
                  'exp(z) representable for the logistic terms'])

EPS = 2.3e-16


def softplus(z):
    return np.logaddexp(0., z)


def sigmoid(z):
    return np.exp(-softplus(-z))


def shape_for(ctx):
    nd = ctx.rng.randint(0, 5)
    shape = tuple(int(ctx.rng.randint(1, 5)) for _ in range(nd))
    if nd and ctx.rng.rand() < 0.05:
        shape = shape[:-1] + (0,)
    ctx.struct('shape ' + str(shape))
    return shape


def lay(ctx, a):
    """The same array in a random memory layout."""
    if a.ndim == 0:
        return a
    k = ctx.rng.randint(3)
    if k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    b = np.zeros(tuple(2 * s for s in a.shape))
    b = b[tuple(slice(None, None, 2) for _ in a.shape)]
    b[...] = a
    return b


class Frozen(object):
    def __init__(self, ctx, *arrays):
        self.ctx, self.arrays = ctx, arrays
        self.copies = [np.array(a) for a in arrays]

    def done(self):
        for a, c in zip(self.arrays, self.copies):
            self.ctx.same('arguments unchanged', a, c)


def hermite(ctx, n):
    x, w = np.polynomial.hermite.hermgauss(n)
    if ctx.rng.rand() < 0.2:
        # Any order of the nodes is a rule.
        p = ctx.rng.permutation(n)
        x, w = x[p], w[p]
    ctx.struct('{} nodes'.format(n))
    return x, w


def normal_params(ctx, shape, mean_scale, sd_lo, sd_hi):
    means = np.asarray(mean_scale * ctx.rng.uniform(-1, 1, size=shape))
    sds = np.asarray(np.exp(ctx.rng.uniform(np.log(sd_lo), np.log(sd_hi), size=shape)))
    infos = np.asarray(1. / sds ** 2)
    return lay(ctx, means), lay(ctx, infos), 1. / np.sqrt(infos)


def grads(ctx, fun, mean, other, want_mean, want_other, tol_mean, tol_other, msg):
    """Gradients of the sum of fun(mean, other)."""
    if ctx.rng.rand() < 0.5 or mean.size == 0:
        return
    gm = autograd.grad(lambda m: autograd.numpy.sum(fun(m, other)))(np.array(mean))
    go = autograd.grad(lambda o: autograd.numpy.sum(fun(mean, o)))(np.array(other))
    ctx.ev('gradients ' + msg, gm, go)
    ctx.close('gradient', np.asarray(gm), want_mean, tol_mean, msg + ' with respect to the mean')
    ctx.close('gradient', np.asarray(go), want_other, tol_other, msg + ' with respect to the scale')


@scenario('C28', 240)
def polynomials(ctx):
    shape = shape_for(ctx)
    n = int(ctx.rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 20, 31]))
    x, w = hermite(ctx, n)
    deg = int(ctx.rng.randint(0, 2 * n)) if ctx.rng.rand() < 0.5 else 2 * n - 1
    sd_hi = 3. if deg < 12 else 1.2
    means, infos, sds = normal_params(ctx, shape, 2. if deg < 12 else 1., 0.05, sd_hi)
    unit = 1.
    if ctx.rng.rand() < 0.4:
        # The same in other units: diffuse or concentrated.
        unit = 10. ** (ctx.rng.uniform(-1, 1) * min(5., 120. / (deg + 1)))
        means = lay(ctx, np.array(means * unit))
        infos = lay(ctx, np.array(infos / unit ** 2))
        sds = 1. / np.sqrt(infos)
        ctx.feat('other units')
    ctx.struct('degree {}'.format(deg))
    coef = ctx.rng.normal(size=deg + 1) / unit ** np.arange(deg + 1)
    # E X^k = mean E X^(k-1) + (k-1) var E X^(k-2)
    mom, size = [np.ones(shape)], [np.ones(shape)]
    for k in range(1, deg + 1):
        mom.append(means * mom[k - 1] + ((k - 1) * sds ** 2 * mom[k - 2] if k > 1 else 0.))
        size.append(np.abs(means) * size[k - 1] + ((k - 1) * sds ** 2 * size[k - 2] if k > 1 else 0.))
    want = sum(c * m for c, m in zip(coef, mom))
    tol = 1e-11 * (1 + n) * sum(abs(c) * s for c, s in zip(coef, size))

    def fun(z):
        out = coef[-1] + 0. * z
        for c in coef[-2::-1]:
            out = out * z + c
        return out
    frozen = Frozen(ctx, means, infos, x, w)
    got = ctx.call('get_e_fun_normal', ef.get_e_fun_normal, means, infos, x, w, fun)
    ctx.close('polynomial exact', got, np.asarray(want), tol)
    frozen.done()


def weighted(x, w, means, sds, fun):
    """The rule applied entry by entry."""
    out = np.zeros(np.shape(means))
    for ind in np.ndindex(*np.shape(means)):
        z = means[ind] + math.sqrt(2.) * sds[ind] * x
        out[ind] = math.fsum(w * fun(z)) / math.sqrt(math.pi)
    return out


FUNS = [
    ('cos', np.cos, lambda z: 1. + 0 * z),
    ('exp(-z^2)', lambda z: np.exp(-z ** 2), lambda z: 1. + 0 * z),
    ('arctan', np.arctan, lambda z: 1. + 0 * z),
    ('abs', np.abs, np.abs),
    ('step', lambda z: 1. * (z > 0.1), None),
    ('square', lambda z: z ** 2, lambda z: z ** 2),
]


@scenario('C28', 80)
def whole_numbers(ctx):
    """Integer arguments of every width mean the same as floats."""
    rng = ctx.rng
    shape = [(3,), (2, 2), (1, 3)][rng.randint(3)]
    x, w = hermite(ctx, int(rng.choice([1, 4, 9, 20])))
    types = [np.int64, np.int32, float]
    pick = lambda lo, hi: rng.randint(lo, hi, size=shape).astype(types[rng.randint(3)])
    means, infos = pick(-3, 4), pick(1, 6)
    ctx.struct('{} {} {}'.format(shape, means.dtype, infos.dtype))
    fm, fi = np.array(means, float), np.array(infos, float)
    sds = 1. / np.sqrt(fi)
    sq = lambda z: z ** 2
    msg = '{} {}'.format(means, infos)
    ctx.close('weighted sum', ctx.call('get_e_fun_normal', ef.get_e_fun_normal, means, infos, x, w, sq), weighted(x, w, fm, sds, sq), 1e-11, msg)
    ctx.close('logit', ctx.call('get_e_logitnormal', ef.get_e_logitnormal, means, infos, x, w), weighted(x, w, fm, sds, sigmoid), 1e-11, msg)
    both = ctx.call('get_e_log_logitnormal', ef.get_e_log_logitnormal, means, infos, x, w)
    ctx.close('log logit', both[0], weighted(x, w, fm, sds, lambda z: -softplus(-z)), 1e-11, msg)
    ctx.close('log logit', both[1], weighted(x, w, fm, sds, lambda z: -softplus(z)), 1e-11, msg)
    alpha = int(rng.randint(1, 5))
    ctx.close('dp prior', ctx.call('get_e_dp_prior_logitnorm_approx', ef.get_e_dp_prior_logitnorm_approx, alpha, means, infos, x, w),
              (alpha - 1) * weighted(x, w, fm, sds, lambda z: -softplus(z)), 1e-11 * alpha, msg)
    each = weighted(x, w, fm, fi, softplus)
    ctx.close('hermite logistic', ctx.call('get_e_logistic_term_guass_hermite', modeling.get_e_logistic_term_guass_hermite, means, infos, x, w, False), each, 1e-10, msg)
    ctx.close('hermite logistic', ctx.call('get_e_logistic_term_guass_hermite', modeling.get_e_logistic_term_guass_hermite, means, infos, x, w), np.sum(each), 1e-9, msg)
    draws = modeling.get_standard_draws(int(rng.randint(2, 12)))
    y = rng.randint(0, 2, size=shape).astype(types[rng.randint(3)])
    want = np.sum(np.array(y, float) * fm) - np.sum(softplus(fm[..., None] + fi[..., None] * draws)) / draws.size
    ctx.close('draw average', ctx.call('get_e_logistic_term', modeling.get_e_logistic_term, y, means, infos, draws), want, 1e-10, msg)


@scenario('C28', 160)
def generic(ctx):
    shape = shape_for(ctx)
    n = int(ctx.rng.choice([1, 2, 5, 9, 16, 33, 60]))
    x, w = hermite(ctx, n)
    means, infos, sds = normal_params(ctx, shape, 10. ** ctx.rng.uniform(-1, 1.5), 0.01, 5.)
    name, fun, size = FUNS[ctx.rng.randint(len(FUNS))]
    if size is None:
        z = np.expand_dims(means, -1) + np.sqrt(2) * np.expand_dims(sds, -1) * x
        if z.size and np.min(np.abs(z - 0.1)) < 1e-9:
            ctx.abandon('a node on the step')
            return
    ctx.struct(name)
    want = weighted(x, w, means, sds, fun)
    tol = 1e-11 * (1 + (want if size is not None and name in ('abs', 'square') else 0.) + np.abs(means))
    frozen = Frozen(ctx, means, infos, x, w)
    got = ctx.call('get_e_fun_normal', ef.get_e_fun_normal, means, infos, x, w, fun)
    ctx.close('weighted sum', got, want, tol, name)
    frozen.done()


def integral(means, sds, fun):
    z, w = quad.normal_grid()
    out = np.zeros(np.shape(means))
    for ind in np.ndindex(*np.shape(means)):
        out[ind] = np.sum(w * fun(means[ind] + sds[ind] * z))
    return out


def smooth_tol(n, sds):
    """How far Gauss-Hermite may be from the integral: the integrands are
    analytic in the strip |Im z| < pi."""
    d = np.pi / (np.sqrt(2.) * np.maximum(sds, 1e-3))
    return 20. * np.exp(-d * np.sqrt(2. * n)) + 1e-10


def rule_case(ctx, mean_scale, sd_hi=1.5):
    shape = shape_for(ctx)
    n = int(ctx.rng.choice([1, 2, 5, 20, 40, 60]))
    x, w = hermite(ctx, n)
    means, infos, sds = normal_params(ctx, shape, mean_scale, 0.01, sd_hi)
    return n, x, w, means, infos, sds


@scenario('C28', 160)
def logitnormal(ctx):
    n, x, w, means, infos, sds = rule_case(ctx, 10. ** ctx.rng.uniform(-1, 2.3))
    frozen = Frozen(ctx, means, infos, x, w)
    got = ctx.call('get_e_logitnormal', ef.get_e_logitnormal, means, infos, x, w)
    ctx.close('logit', got, weighted(x, w, means, sds, sigmoid), 1e-12)
    if n >= 20:
        ctx.close('integral', got, integral(means, sds, sigmoid), smooth_tol(n, sds), 'logit normal')
    frozen.done()
    z = lambda v: sigmoid(v) * sigmoid(-v)
    if np.max(np.abs(means) + 12 * sds) < 300 if means.size else False:
        dm = weighted(x, w, means, sds, z)
        di = integral_weight(x, w, means, sds, z) * -0.5 * sds ** 3
        grads(ctx, lambda m, i: ef.get_e_logitnormal(m, i, x, w), means, infos, dm, di,
              1e-11, 1e-11 * (1 + sds ** 3), 'logit normal')


def integral_weight(x, w, means, sds, fun):
    """Derivative with respect to the standard deviation: sum of
    w sqrt(2) x fun(z)."""
    out = np.zeros(np.shape(means))
    for ind in np.ndindex(*np.shape(means)):
        z = means[ind] + math.sqrt(2.) * sds[ind] * x
        out[ind] = math.fsum(w * math.sqrt(2.) * x * fun(z)) / math.sqrt(math.pi)
    return out


@scenario('C28', 200)
def log_logitnormal(ctx):
    n, x, w, means, infos, sds = rule_case(ctx, 10. ** ctx.rng.uniform(-1, 3), 10. if ctx.rng.rand() < 0.3 else 1.5)
    logv = lambda z: -softplus(-z)
    log1mv = lambda z: -softplus(z)
    frozen = Frozen(ctx, means, infos, x, w)
    got = ctx.call('get_e_log_logitnormal', ef.get_e_log_logitnormal, means, infos, x, w)
    ctx.check('log logit', isinstance(got, tuple) and len(got) == 2, 'two expectations expected')
    tol = 1e-12 * (1 + np.abs(means) + sds)
    ctx.close('log logit', got[0], weighted(x, w, means, sds, logv), tol, 'log v')
    ctx.close('log logit', got[1], weighted(x, w, means, sds, log1mv), tol, 'log (1 - v)')
    if n >= 20:
        t = smooth_tol(n, sds) + 1e-10 * np.abs(means)
        ctx.close('integral', got[0], integral(means, sds, logv), t * (1 + sds), 'log v')
        ctx.close('integral', got[1], integral(means, sds, log1mv), t * (1 + sds), 'log (1 - v)')
    alpha = float(10. ** ctx.rng.uniform(-1, 1.5))
    dp = ctx.call('get_e_dp_prior_logitnorm_approx', ef.get_e_dp_prior_logitnorm_approx, alpha, means, infos, x, w)
    ctx.close('dp prior', dp, (alpha - 1) * weighted(x, w, means, sds, log1mv), abs(alpha - 1) * tol, 'alpha {}'.format(alpha))
    frozen.done()
    if means.size and np.max(np.abs(means) + 16 * sds) < 300:
        which = ctx.rng.randint(2)
        f = (lambda z: sigmoid(-z)) if which == 0 else (lambda z: -sigmoid(z))
        dm = weighted(x, w, means, sds, f)
        di = integral_weight(x, w, means, sds, f) * -0.5 * sds ** 3
        grads(ctx, lambda m, i: ef.get_e_log_logitnormal(m, i, x, w)[which], means, infos, dm, di,
              1e-11, 1e-11 * (1 + sds ** 4), 'log logit normal {}'.format(which))


@scenario('C28', 60)
def exact_nodes(ctx):
    """The middle node of an odd rule is the mean itself: round means, and
    values at which an implementation might change branch."""
    n = int(ctx.rng.choice([1, 1, 3, 9, 21]))
    x, w = hermite(ctx, n)
    special = [0., -0., 1., -1., 50., -50., 100., -100., 200., -200., 500., -500., 700., -700., 709., -745., -746., 1000., -1000., 1e4, -1e4,
               float(ctx.rng.randint(-120, 121)), float(ctx.rng.randint(-800, 801)), -36., -37., 36., 37., -20., 20., -30., 30.]
    means = np.array(special)
    infos = 4. ** ctx.rng.randint(-1, 6, size=means.shape)
    sds = 1. / np.sqrt(infos)
    frozen = Frozen(ctx, means, infos, x, w)
    tol = 1e-12 * (1 + np.abs(means) + sds)
    got = ctx.call('get_e_log_logitnormal', ef.get_e_log_logitnormal, means, infos, x, w)
    ctx.close('log logit', np.asarray(got[0]), weighted(x, w, means, sds, lambda z: -softplus(-z)), tol, 'log v at round means')
    ctx.close('log logit', np.asarray(got[1]), weighted(x, w, means, sds, lambda z: -softplus(z)), tol, 'log (1 - v) at round means')
    got = ctx.call('get_e_logitnormal', ef.get_e_logitnormal, means, infos, x, w)
    ctx.close('logit', got, weighted(x, w, means, sds, sigmoid), 1e-12, 'round means')
    alpha = float(ctx.rng.choice([0.5, 1., 2., 7.5]))
    got = ctx.call('get_e_dp_prior_logitnorm_approx', ef.get_e_dp_prior_logitnorm_approx, alpha, means, infos, x, w)
    ctx.close('dp prior', got, (alpha - 1) * weighted(x, w, means, sds, lambda z: -softplus(z)), abs(alpha - 1) * tol, 'round means')
    frozen.done()


@scenario('C28', 200)
def logistic_draws(ctx):
    shape = shape_for(ctx)
    means, _, sds = normal_params(ctx, shape, 10. ** ctx.rng.uniform(-1, 1.7), 0.01, 4.)
    sds = lay(ctx, np.asarray(sds))
    k = ctx.rng.randint(3)
    y = np.asarray([ctx.rng.randint(0, 2, size=shape), ctx.rng.uniform(0, 1, size=shape),
                    ctx.rng.rand(*shape) < 0.5][k])
    nd = int(ctx.rng.choice([1, 2, 3, 10, 101]))
    draws = ctx.rng.normal(size=nd) if ctx.rng.rand() < 0.6 else np.array(ctx.call('get_standard_draws', modeling.get_standard_draws, nd))
    if ctx.rng.rand() < 0.3:
        # Repeated draws count as often as they are repeated.
        draws = draws[ctx.rng.randint(0, nd, size=nd)] if ctx.rng.rand() < 0.5 else np.round(draws)
        ctx.feat('repeated draws')
    ctx.struct('{} draws, y {}'.format(nd, y.dtype.kind))
    frozen = Frozen(ctx, y, means, sds, draws)
    got = ctx.call('get_e_logistic_term', modeling.get_e_logistic_term, y, means, sds, draws)
    tot, size = [], 1.
    for ind in np.ndindex(*shape):
        z = means[ind] + sds[ind] * draws
        tot.append(float(y[ind]) * float(means[ind]))
        tot.append(-math.fsum(softplus(z)) / nd)
        size += abs(tot[-1]) + abs(tot[-2])
    ctx.close('draw average', got, np.asarray(math.fsum(tot)), 1e-13 * size * max(1, len(tot)))
    frozen.done()
    s = np.zeros(shape + (nd,))
    for ind in np.ndindex(*shape):
        s[ind] = sigmoid(means[ind] + sds[ind] * draws)
    grads(ctx, lambda m, sd: modeling.get_e_logistic_term(y, m, sd, draws), means, sds,
          np.asarray(y * 1. - np.mean(s, axis=-1)), np.asarray(-np.mean(s * draws, axis=-1)), 1e-12, 1e-11, 'logistic term')


@scenario('C28', 160)
def logistic_hermite(ctx):
    n, x, w, means, infos, sds = rule_case(ctx, 10. ** ctx.rng.uniform(-1, 1.7))
    sds = lay(ctx, np.asarray(sds))
    frozen = Frozen(ctx, means, sds, x, w)
    each = weighted(x, w, means, sds, softplus)
    f = modeling.get_e_logistic_term_guass_hermite
    tol = 1e-12 * (1 + np.abs(means) + sds)
    got = ctx.call('logistic term, elementwise', f, means, sds, x, w, aggregate_all=False)
    ctx.close('hermite logistic', got, each, tol)
    if n >= 20:
        ctx.close('integral', got, integral(means, sds, softplus), smooth_tol(n, sds) + 1e-10 * np.abs(means), 'logistic term')
    ttol = np.sum(tol) + 1e-14
    if ctx.rng.rand() < 0.5:
        agg = ctx.call('logistic term, total', f, means, sds, x, w)
    else:
        agg = ctx.call('logistic term, total', f, means, sds, x, w, aggregate_all=True)
    ctx.close('aggregation', agg, np.asarray(math.fsum(each.reshape(-1))), ttol)
    frozen.done()
    grads(ctx, lambda m, sd: f(m, sd, x, w), means, sds, weighted(x, w, means, sds, sigmoid),
          integral_weight(x, w, means, sds, sigmoid), 1e-11, 1e-11 * (1 + sds), 'hermite logistic term')


@scenario('C28', 120)
def standard_draws(ctx):
    n = int(ctx.rng.randint(1, 30)) if ctx.rng.rand() < 0.5 else int(10 ** ctx.rng.uniform(1, 3.7))
    ctx.struct('{} draws'.format(n))
    d = ctx.call('get_standard_draws', modeling.get_standard_draws, n)
    ctx.check('draws count', np.shape(d) == (n,), 'shape {}'.format(np.shape(d)))
    got = np.array([0.5 * math.erfc(-t / math.sqrt(2.)) for t in d])
    want = np.arange(1, n + 1) / (n + 1.)
    ctx.close('draws quantiles', got, want, 1e-13)
    ctx.close('draws symmetric', d + d[::-1], np.zeros(n), 1e-11 * n)
    ctx.check('draws increasing', bool(np.all(np.diff(d) > 0)), 'not increasing')
