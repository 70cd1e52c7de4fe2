"""C26, C27, C29: entropies, expectations, priors and log probabilities."""
import math
import numpy as np
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as modeling

from core import scenario, prop
import gen
import quad

ASSUME = ['the reference integrals are trapezoid sums in coordinates where the rule converges exponentially, with integrated normalizers; no special function is shared with the code']


ROUND = np.array([0.5, 1., 1.5, 2., 3., 4., 5., 8., 10., 20., 50.])


def pos(rng, size=None, lo=-1.5, hi=1.7):
    x = 10. ** rng.uniform(lo, hi, size=size)
    if rng.rand() < 0.12:
        # The same round number everywhere, or round numbers.
        r = ROUND[(ROUND >= 10. ** lo) & (ROUND <= 10. ** hi)]
        if r.size:
            v = r[rng.randint(r.size)] if rng.randint(2) else r[rng.randint(r.size, size=size)]
            x = v + 0. * x
    return x


def spd(rng, k, lo=-2., hi=2.):
    """(matrix, eigenvectors, eigenvalues)."""
    q, _ = np.linalg.qr(rng.randn(k, k))
    lam = 10. ** rng.uniform(lo, hi, size=k)
    if rng.rand() < 0.1:
        q = np.eye(k)
    m = np.dot(q * lam, q.T)
    return 0.5 * (m + m.T), q, lam


def shape_of(rng, max_dim=3, max_size=8):
    return gen.rand_shape(rng, max_dim=max_dim, max_size=max_size, min_dim=0)


def maybe_layout(ctx, a):
    a = np.asarray(a, float)
    if a.ndim and ctx.rng.rand() < 0.3:
        return gen.layout(ctx.rng, a)
    return a


# ---------------------------------------------------------------- C26

prop('C26', rule='random legal parameters over many orders of magnitude and array shapes for each family; each entropy is compared with minus the numerically integrated density times its logarithm',
     required=['univariate normal', 'multivariate normal', 'gamma', 'beta', 'dirichlet', 'wishart', 'categorical', 'refused'], assumptions=ASSUME)


@scenario('C26', 320)
def uvn(ctx):
    rng = ctx.rng
    shape = shape_of(rng)
    info = pos(rng, shape, -6, 6)
    ctx.struct('uvn {}'.format(shape))
    got = ctx.call('univariate_normal_entropy', ef.univariate_normal_entropy, maybe_layout(ctx, info))
    z, w = quad.normal_grid()
    tot = 0.
    for v in np.reshape(info, -1):
        # Density of x = z / sqrt(info) on the grid, normalized by the grid.
        logq = -0.5 * z ** 2
        logz = np.log(np.sum(np.exp(logq)) * (z[1] - z[0]) / np.sqrt(v))
        tot += logz - np.sum(w * logq)
    ctx.close('univariate normal', got, tot, 1e-11 * (1 + np.size(info) * 10), '{}'.format(info))


@scenario('C26', 320)
def mvn(ctx):
    rng = ctx.rng
    k = int([rng.randint(1, 6), rng.randint(1, 12), rng.randint(20, 50)][rng.randint(3)])
    style = rng.randint(3)
    m, q, lam = spd(rng, k, *[(-1, 1), (-3, 3), [(8, 10), (-10, -8), (-5, 5)][rng.randint(3)]][style])
    ctx.struct('mvn {} {}'.format(k, style))
    got = ctx.call('multivariate_normal_entropy', ef.multivariate_normal_entropy, maybe_layout(ctx, m))
    z, w = quad.normal_grid()
    h1 = np.log(np.sum(np.exp(-0.5 * z ** 2)) * (z[1] - z[0])) + 0.5 * np.sum(w * z ** 2)
    want = k * h1 - 0.5 * np.sum(np.log(lam))
    cond = np.max(lam) / np.min(lam)
    ctx.close('multivariate normal', got, want, 1e-10 * k * (1 + np.max(np.abs(np.log(lam)))) + 1e-14 * k * k * cond, 'dimension {}'.format(k))
    if style == 1:
        bad = m - 2 * np.max(lam) * np.outer(q[:, 0], q[:, 0])
        if np.linalg.det(bad) < 0 and k < 6:
            ctx.refused('not positive definite refused', lambda: ef.multivariate_normal_entropy(bad), 'negative determinant')


@scenario('C26', 480)
def gamma(ctx):
    rng = ctx.rng
    shape = shape_of(rng, 2, 5)
    hi = 3. if ctx.index % 2 else 5.
    a, b = pos(rng, shape, 1.5 - hi, hi), pos(rng, shape, -4, 4)
    ctx.struct('gamma {}'.format(shape))
    got = ctx.call('gamma_entropy', ef.gamma_entropy, maybe_layout(ctx, a), maybe_layout(ctx, b))
    fs = [quad.gamma(s, r) for s, r in zip(np.reshape(a, -1), np.reshape(b, -1))]
    ctx.close('gamma', got, sum(f['entropy'] for f in fs), 1e-10 * sum(f['size'] for f in fs), '{} {}'.format(a, b))
    if np.ndim(a):
        # One rate for all.
        r = float(pos(rng, None, -2, 2))
        got = ctx.call('gamma_entropy', ef.gamma_entropy, a, r)
        fs = [quad.gamma(s, r) for s in np.reshape(a, -1)]
        ctx.close('gamma', got, sum(f['entropy'] for f in fs), 1e-10 * sum(f['size'] for f in fs), '{} {}'.format(a, r))


@scenario('C26', 320)
def beta(ctx):
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    tau = pos(rng, (n, 2), -1.5, 2.5 if ctx.index % 2 else 4.5)
    ctx.struct('beta {}'.format(n))
    got = ctx.call('beta_entropy', ef.beta_entropy, maybe_layout(ctx, tau))
    fs = [quad.beta(a, b) for a, b in tau]
    ctx.close('beta', got, sum(f['entropy'] for f in fs), 1e-10 * sum(f['size'] for f in fs), '{}'.format(tau))


@scenario('C26', 320)
def dirichlet(ctx):
    rng = ctx.rng
    k = int(rng.randint(2, 7)) if ctx.index % 8 else int(rng.randint(12, 40))
    rest = [(), (int(rng.randint(1, 4)),), (2, 2), (1, 3)][rng.randint(4)]
    alpha = pos(rng, (k,) + rest, -1.3, 2.3 if ctx.index % 2 else 4.)
    ctx.struct('dirichlet {}'.format(alpha.shape))
    got = ctx.call('dirichlet_entropy', ef.dirichlet_entropy, maybe_layout(ctx, alpha))
    want, tol = np.zeros(rest), np.zeros(rest)
    for ind in np.ndindex(*rest):
        f = quad.dirichlet(alpha[(slice(None),) + ind])
        want[ind], tol[ind] = f['entropy'], 1e-10 * f['size']
    ctx.close('dirichlet', got, want, tol, '{}'.format(alpha))


@scenario('C26', 240)
def wishart(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 6)) if rng.rand() < 0.85 else int(rng.randint(15, 25))
    v, q, lam = spd(rng, k, *([(-2, 2), (-4.5, 4.5), (12, 14), (-14, -12)][rng.randint(4)]))
    df = k - 1 + float(pos(rng, None, -1, 2.3 if ctx.index % 2 else 4.5))
    ctx.struct('wishart {}'.format(k))
    got = ctx.call('wishart_entropy', ef.wishart_entropy, df, maybe_layout(ctx, v))
    f = quad.wishart(df, lam)
    cond = np.max(lam) / np.min(lam)
    ctx.close('wishart', got, f['entropy'], 1e-10 * f['size'] + 1e-14 * k ** 3 * cond, '{} {}'.format(df, v))


def improper(rng):
    """A symmetric matrix whose determinant is not positive."""
    k = int(rng.randint(1, 6))
    j = rng.randint(3)
    if j == 0:
        # Exactly singular.
        d = 10. ** rng.uniform(-2, 2, size=k)
        d[rng.randint(k)] = 0.
        return np.diag(d)
    if j == 1:
        return np.zeros((k, k))
    lam = 10. ** rng.uniform(-1, 1, size=k)
    lam[rng.randint(k)] *= -1.
    q, _ = np.linalg.qr(rng.normal(size=(k, k)))
    v = np.dot(q * lam, q.T)
    return 0.5 * (v + v.T)


@scenario('C26', 80)
def improper_scale(ctx):
    """A scale matrix with a determinant that is not positive has no entropy."""
    v = improper(ctx.rng)
    k = len(v)
    ctx.struct('improper {}'.format(k))
    df = k + float(ctx.rng.rand() * 5)
    ctx.refused('refused', lambda: ef.wishart_entropy(df, v), 'determinant {}'.format(np.linalg.slogdet(v)))
    ctx.refused('refused', lambda: ef.wishart_entropy(df, np.ones((k, k + 1))), 'not square')


@scenario('C27', 80)
def improper_scale_logs(ctx):
    v = improper(ctx.rng)
    k = len(v)
    ctx.struct('improper {}'.format(k))
    df = k + float(ctx.rng.rand() * 5)
    ctx.refused('refused', lambda: ef.e_log_det_wishart(df, v), 'determinant {}'.format(np.linalg.slogdet(v)))
    ctx.refused('refused', lambda: ef.e_log_inv_wishart_diag(df, np.ones((k, k + 1))), 'not square')


@scenario('C26', 320)
def categorical(ctx):
    rng = ctx.rng
    n, k = int(rng.randint(1, 5)), int(rng.randint(1, 7)) if ctx.index % 8 else int(rng.randint(20, 300))
    p = np.exp(rng.uniform(-1, 1, size=(n, k)) * float(rng.choice([0.5, 3., 20.])))
    if rng.rand() < 0.4:
        p = p * (rng.rand(n, k) < 0.6)
        p[np.sum(p, axis=1) == 0, 0] = 1.
        ctx.feat('zero probabilities')
    p = p / np.sum(p, axis=1, keepdims=True)
    ctx.struct('categorical {}'.format((n, k)))
    got = ctx.call('multinoulli_entropy', ef.multinoulli_entropy, maybe_layout(ctx, p))
    want = np.array([-sum(x * np.log(x) for x in row if x > 0) for row in p])
    ctx.close('categorical', got, want, 1e-11, '{}'.format(p))


# ---------------------------------------------------------------- C27

prop('C27', rule='random legal parameters over many orders of magnitude and array shapes; each closed-form expectation is compared with the numerically integrated one',
     required=['lognormal mean', 'lognormal variance', 'gamma mean log', 'dirichlet mean', 'dirichlet mean log', 'wishart mean log determinant',
               'wishart mean log inverse diagonal', 'multivariate digamma', 'multivariate log gamma', 'refused'], assumptions=ASSUME)


@scenario('C27', 400)
def lognormal(ctx):
    rng = ctx.rng
    shape = shape_of(rng)
    mu, s2 = 3. * rng.randn(*shape), pos(rng, shape, -6, 0.7)
    wide = ctx.index % 4 == 0
    if wide:
        s2 = pos(rng, shape, -1., 1.85)
    ctx.struct('lognormal {} {}'.format(shape, wide))
    e = ctx.call('get_e_lognormal', ef.get_e_lognormal, maybe_layout(ctx, mu), maybe_layout(ctx, s2))
    v = ctx.call('get_var_lognormal', ef.get_var_lognormal, mu, s2)
    z, w = quad.normal_grid()
    if wide:
        # The moments are carried by the far tail.
        z, w = quad.normal_grid(24001, 39.)
    x = np.expand_dims(np.sqrt(s2), -1) * z
    we = np.sum(w * np.exp(x), axis=-1)
    wv = np.sum(w * (np.exp(x) - np.expand_dims(we, -1)) ** 2, axis=-1)
    scale = np.exp(mu)
    ctx.close('lognormal mean', e, we * scale, 1e-11 * we * scale, '{} {}'.format(mu, s2))
    ctx.close('lognormal variance', v, wv * scale ** 2, 1e-9 * wv * scale ** 2 + 1e-14 * (we * scale) ** 2, '{} {}'.format(mu, s2))


@scenario('C27', 400)
def gamma_log(ctx):
    rng = ctx.rng
    shape = shape_of(rng, 2, 5)
    hi = 3. if ctx.index % 2 else 5.
    a, b = pos(rng, shape, 1.5 - hi, hi), pos(rng, shape, -4, 4)
    ctx.struct('gamma {}'.format(shape))
    got = ctx.call('get_e_log_gamma', ef.get_e_log_gamma, maybe_layout(ctx, a), maybe_layout(ctx, b))
    want = np.array([quad.gamma(s, r)['e_log'] for s, r in zip(np.reshape(a, -1), np.reshape(b, -1))]).reshape(shape)
    ctx.close('gamma mean log', got, want, 1e-10 * (1 + np.abs(want)), '{} {}'.format(a, b))


@scenario('C27', 320)
def dirichlet_moments(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 7)) if ctx.index % 8 else int(rng.randint(12, 40))
    rest = [(), (int(rng.randint(1, 4)),), (2, 2), (1, 3)][rng.randint(4)]
    alpha = pos(rng, (k,) + rest, -1.3, 2.3 if ctx.index % 2 else 4.)
    ctx.struct('dirichlet {}'.format(alpha.shape))
    e = ctx.call('get_e_dirichlet', ef.get_e_dirichlet, maybe_layout(ctx, alpha))
    el = ctx.call('get_e_log_dirichlet', ef.get_e_log_dirichlet, maybe_layout(ctx, alpha))
    we, wl = np.zeros(alpha.shape), np.zeros(alpha.shape)
    for ind in np.ndindex(*rest):
        f = quad.dirichlet(alpha[(slice(None),) + ind])
        we[(slice(None),) + ind], wl[(slice(None),) + ind] = f['e'], f['e_log']
    ctx.close('dirichlet mean', e, we, 1e-10, '{}'.format(alpha))
    ctx.close('dirichlet mean log', el, wl, 1e-10 * (1 + np.abs(wl)), '{}'.format(alpha))


@scenario('C27', 120)
def extreme_parameters(ctx):
    """Parameters so small that the moments are their leading terms, and
    means of parameters of every size."""
    rng = ctx.rng
    k = int(rng.randint(1, 5))
    rest = [(), (2,), (2, 2)][rng.randint(3)]
    at = 10. ** rng.uniform(-100, 100)
    alpha = at * 10. ** rng.uniform(-3, 3, size=(k,) + rest)
    ctx.struct('{} at size 1e{}'.format(alpha.shape, int(math.log10(at)) // 10 * 10))
    e = ctx.call('get_e_dirichlet', ef.get_e_dirichlet, maybe_layout(ctx, alpha))
    want = alpha / np.sum(alpha, axis=0, keepdims=True)
    ctx.close('dirichlet mean', e, want, 1e-12 * want, '{}'.format(alpha))
    tiny = 10. ** (rng.uniform(-100, -10) + rng.uniform(-2, 2, size=(k,) + rest))
    euler = 0.57721566490153286
    digamma = lambda a: -1. / a - euler
    el = ctx.call('get_e_log_dirichlet', ef.get_e_log_dirichlet, maybe_layout(ctx, tiny))
    total = np.sum(tiny, axis=0, keepdims=True)
    ctx.close('dirichlet mean log', el, digamma(tiny) - digamma(total), 1e-11 * (1. / tiny + 1.), '{}'.format(tiny))
    rate = 10. ** rng.uniform(-100, 100, size=tiny.shape)
    eg = ctx.call('get_e_log_gamma', ef.get_e_log_gamma, maybe_layout(ctx, tiny), maybe_layout(ctx, rate))
    ctx.close('gamma mean log', eg, digamma(tiny) - np.log(rate), 1e-11 * (1. / tiny + 300.), '{} {}'.format(tiny, rate))
    var = 10. ** rng.uniform(-14, -9, size=rest + (2,))
    mu = rng.uniform(-200, 200, size=rest + (2,))
    v = ctx.call('get_var_lognormal', ef.get_var_lognormal, maybe_layout(ctx, mu), maybe_layout(ctx, var))
    want = var * np.exp(2 * mu)
    ctx.close('lognormal variance', v, want, (1e-15 + 1e-8 * var + var * 1e-12) * np.exp(2 * mu) * 2, '{} {}'.format(mu, var))


def whole(ctx, shape, lo=1, hi=9):
    """Whole numbers as integers of some type, and the same as floats."""
    a = ctx.rng.randint(lo, hi, size=shape)
    t = [np.int64, np.int32][ctx.rng.randint(2)]
    return (a.astype(t) if shape != () else int(a)), np.asarray(a, float) if shape != () else float(a)


@scenario('C26', 60)
def whole_numbers(ctx):
    """Integers mean the same as floats of the same value."""
    rng = ctx.rng
    shape = [(3,), (2, 2), (1,)][rng.randint(3)]
    ctx.struct('integers {}'.format(shape))
    (a, fa), (b, fb) = whole(ctx, shape), whole(ctx, shape)
    same = lambda mon, got, want: ctx.close(mon, got, want, 1e-12 * (1 + np.abs(want)), '{} {}'.format(a, b))
    same('univariate normal', ctx.call('univariate_normal_entropy', ef.univariate_normal_entropy, a), ef.univariate_normal_entropy(fa))
    same('gamma', ctx.call('gamma_entropy', ef.gamma_entropy, a, b), ef.gamma_entropy(fa, fb))
    al, fal = whole(ctx, (3,) + shape[1:])
    same('dirichlet', ctx.call('dirichlet_entropy', ef.dirichlet_entropy, al), ef.dirichlet_entropy(fal))
    t, ft = whole(ctx, (shape[0], 2))
    same('beta', ctx.call('beta_entropy', ef.beta_entropy, t), ef.beta_entropy(ft))
    k = int(rng.randint(1, 4))
    m, fm = whole(ctx, (k, k), -2, 3)
    m, fm = np.dot(m, m.T) + np.eye(k, dtype=m.dtype), np.dot(fm, fm.T) + np.eye(k)
    df = k + int(rng.randint(0, 9))
    same('multivariate normal', ctx.call('multivariate_normal_entropy', ef.multivariate_normal_entropy, m), ef.multivariate_normal_entropy(fm))
    same('wishart', ctx.call('wishart_entropy', ef.wishart_entropy, df, m), ef.wishart_entropy(float(df), fm))


@scenario('C27', 60)
def whole_number_moments(ctx):
    rng = ctx.rng
    shape = [(3,), (2, 2), (), (1,)][rng.randint(4)]
    ctx.struct('integers {}'.format(shape))
    (a, fa), (b, fb) = whole(ctx, shape), whole(ctx, shape)
    same = lambda mon, got, want: ctx.close(mon, got, want, 1e-12 * (1 + np.abs(want)), '{} {}'.format(a, b))
    same('lognormal mean', ctx.call('get_e_lognormal', ef.get_e_lognormal, a, b), ef.get_e_lognormal(fa, fb))
    same('lognormal variance', ctx.call('get_var_lognormal', ef.get_var_lognormal, a, b), ef.get_var_lognormal(fa, fb))
    same('gamma mean log', ctx.call('get_e_log_gamma', ef.get_e_log_gamma, a, b), ef.get_e_log_gamma(fa, fb))
    al, fal = whole(ctx, (3,) + shape[1:])
    same('dirichlet mean', ctx.call('get_e_dirichlet', ef.get_e_dirichlet, al), fal / np.sum(fal, axis=0, keepdims=True))
    same('dirichlet mean log', ctx.call('get_e_log_dirichlet', ef.get_e_log_dirichlet, al), ef.get_e_log_dirichlet(fal))
    k = int(rng.randint(1, 4))
    m, fm = whole(ctx, (k, k), -2, 3)
    m, fm = np.dot(m, m.T) + np.eye(k, dtype=m.dtype), np.dot(fm, fm.T) + np.eye(k)
    df = k + int(rng.randint(0, 9))
    same('wishart mean log determinant', ctx.call('e_log_det_wishart', ef.e_log_det_wishart, df, m), ef.e_log_det_wishart(float(df), fm))
    same('wishart mean log inverse diagonal', ctx.call('e_log_inv_wishart_diag', ef.e_log_inv_wishart_diag, df, m), ef.e_log_inv_wishart_diag(float(df), fm))
    x = k + int(rng.randint(0, 5))
    same('multivariate digamma', ctx.call('multivariate_digamma', ef.multivariate_digamma, x, k), ef.multivariate_digamma(float(x), float(k)))
    same('multivariate log gamma', ctx.call('multivariate_gammaln', ef.multivariate_gammaln, x, k), ef.multivariate_gammaln(float(x), float(k)))


@scenario('C27', 320)
def wishart_logs(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 6)) if rng.rand() < 0.85 else int(rng.randint(15, 25))
    v, q, lam = spd(rng, k, *([(-2, 2), (-1, 1), (-4.5, 4.5), (12, 13), (-13, -12)][rng.randint(5)]))
    gap = float(pos(rng, None, *[(-1, 2.3), (-1, 4.5), (-4.5, -1)][ctx.index % 3]))
    df = k - 1 + gap
    slack = 4e-15 * df / min(gap, 1.) ** 2
    ctx.struct('wishart {}'.format(k))
    f = quad.wishart(df, lam)
    cond = np.max(lam) / np.min(lam)
    got = ctx.call('e_log_det_wishart', ef.e_log_det_wishart, df, maybe_layout(ctx, v))
    ctx.close('wishart mean log determinant', got, f['e_log_det'], 1e-10 * f['size'] + 1e-14 * k ** 2 * cond + slack, '{} {}'.format(df, v))
    got = ctx.call('e_log_inv_wishart_diag', ef.e_log_inv_wishart_diag, df, maybe_layout(ctx, v))
    inv_diag = np.sum(q ** 2 / lam, axis=1)
    want = np.log(inv_diag) + f['minus_e_log_chi2']
    ctx.close('wishart mean log inverse diagonal', got, want,
              1e-10 * (1 + np.abs(want) + np.abs(np.log(inv_diag))) + 1e-14 * k ** 2 * cond + slack, '{} {}'.format(df, v))


@scenario('C27', 320)
def multivariate(ctx):
    rng = ctx.rng
    size = int(rng.randint(1, 8)) if ctx.index % 6 else int(rng.randint(10, 40))
    gap = float(pos(rng, None, *[(-1.5, 2.5), (-1.5, 4.5), (-4.5, -1.)][ctx.index % 3]))
    x = 0.5 * (size - 1) + gap
    # The sum above is rounded.
    slack = 1e-15 * x / min(gap, 1.) ** 2
    arg = size if rng.randint(2) else float(size)
    ctx.struct('multivariate {}'.format(size))
    fs = [quad.gamma(x - 0.5 * i, 1.) for i in range(size)]
    got = ctx.call('multivariate_digamma', ef.multivariate_digamma, x, arg)
    ctx.close('multivariate digamma', got, sum(f['e_log'] for f in fs), 1e-10 * sum(1 + abs(f['e_log']) for f in fs) + slack, '{} {}'.format(x, size))
    got = ctx.call('multivariate_gammaln', ef.multivariate_gammaln, x, arg)
    # The off-diagonal entries of the Cholesky factor: Gaussian integrals.
    z, _ = quad.normal_grid()
    g = np.log(np.sum(np.exp(-0.5 * z ** 2)) * (z[1] - z[0]) / np.sqrt(2.))
    want = sum(f['logz'] for f in fs) + 0.5 * size * (size - 1) * g
    ctx.close('multivariate log gamma', got, want, 1e-10 * sum(f['size'] for f in fs) + slack * gap, '{} {}'.format(x, size))


# ---------------------------------------------------------------- C29

prop('C29', rule='random prior parameters with moments taken from random discrete distributions, so that the expected log density is an exact finite sum; the reported value may differ from it only by the same constant for all moments; natural parameters and log probabilities are compared with the density',
     required=['multivariate normal prior', 'univariate normal prior', 'gamma prior', 'exponential prior', 'dirichlet prior', 'lkj prior',
               'natural parameters', 'log probability', 'density integrates to one'])


def same_constant(ctx, monitor, pairs, msg):
    """reported - expected must be the same for every pair."""
    base = None
    for got, want in pairs:
        got, want = np.asarray(got, float), np.asarray(want, float)
        ctx.check(monitor + ' shape', got.shape == want.shape, lambda: '{}: {} instead of {}'.format(msg, got.shape, want.shape))
        if base is None:
            base = (got, want)
            continue
        tol = 1e-10 * (1 + sum(np.max(np.abs(v)) if v.size else 0. for v in (got, want, base[0], base[1])))
        ctx.close(monitor, got - base[0], want - base[1], tol, msg)


def weights(rng, n):
    w = rng.dirichlet(np.ones(n)) if rng.rand() < 0.8 else np.eye(n)[rng.randint(n)]
    return w


@scenario('C29', 320)
def mvn_prior(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 5)) if ctx.index % 6 else int(rng.randint(8, 25))
    # The units of the problem: diffuse, unit, or concentrated.
    unit = 1. if ctx.index % 2 else float(pos(rng, None, -5, 5))
    m = 2 * rng.randn(k) * unit
    L, q, lam = spd(rng, k, -1, 1)
    L, lam = L / unit ** 2, lam / unit ** 2
    ctx.struct('mvn prior {} {}'.format(k, int(np.log10(unit))))
    pairs = []
    for _ in range(4):
        n = int(rng.randint(1, 6))
        x, w = 2 * rng.randn(n, k) * unit, weights(rng, n)
        e = np.dot(w, x)
        cov = np.dot((x - e).T * w, x - e)
        logp = np.array([-0.5 * np.sum(lam * np.dot(q.T, xi - m) ** 2) for xi in x])
        pairs.append((ctx.call('mvn_prior', ef.mvn_prior, m, L, e, cov), np.dot(w, logp)))
    same_constant(ctx, 'multivariate normal prior', pairs, 'mean {} info {}'.format(m, L))


@scenario('C29', 320)
def scalar_priors(ctx):
    rng = ctx.rng
    shape = shape_of(rng)
    each = bool(rng.randint(2))
    ps = shape if each else ()
    mean, info = 2 * rng.randn(*ps) if ps else float(2 * rng.randn()), pos(rng, ps, -2, 2)
    unit = 1. if ctx.index % 2 else float(pos(rng, None, -5, 5))
    mean, info = mean * unit, info / unit ** 2
    a, b, lam = pos(rng, ps, -1, 2), pos(rng, ps, -2, 2) / unit, pos(rng, ps, -2, 2) / unit
    if ctx.index % 4 == 1:
        # Vague priors, or confident ones.
        lo, hi = [(-12, -5), (3, 6)][rng.randint(2)]
        a, b, lam = pos(rng, ps, lo, hi), pos(rng, ps, lo, hi), pos(rng, ps, lo, hi)
        info = pos(rng, ps, lo, hi)
        ctx.feat('vague' if lo < 0 else 'confident')
    ctx.struct('scalar priors {} {} {}'.format(shape, each, int(np.log10(unit))))
    pu, pg, pe = [], [], []
    for _ in range(3):
        n = int(rng.randint(1, 6))
        w = weights(rng, n)
        x = 2 * rng.randn(*((n,) + shape)) * unit
        avg = lambda y: np.tensordot(w, y, axes=(0, 0))
        e = avg(x)
        var = avg((x - e) ** 2)
        pu.append((ctx.call('uvn_prior', ef.uvn_prior, mean, info, e, var), avg(-0.5 * info * (x - mean) ** 2 + 0.5 * np.log(info))))
        y = pos(rng, (n,) + shape, -1, 1) * unit
        e, el = avg(y), avg(np.log(y))
        pg.append((ctx.call('gamma_prior', ef.gamma_prior, a, b, e, el), avg((a - 1) * np.log(y) - b * y)))
        pe.append((ctx.call('exponential_prior', ef.exponential_prior, lam, e), avg(np.log(lam) - lam * y)))
    same_constant(ctx, 'univariate normal prior', pu, '{} {}'.format(mean, info))
    same_constant(ctx, 'gamma prior', pg, '{} {}'.format(a, b))
    same_constant(ctx, 'exponential prior', pe, '{}'.format(lam))


@scenario('C29', 60)
def offset_priors(ctx):
    """Observations and prior mean far from the origin but close together:
    only the difference matters."""
    rng = ctx.rng
    shape = shape_of(rng)
    off = float(rng.choice([-1, 1])) * 2. ** rng.randint(10, 34)
    # Exact in floating point, so that the differences are too.
    grid = lambda *s: rng.randint(-64, 65, size=s) / 16.
    ctx.struct('offset priors {}'.format(shape))
    mean, info = off + grid(*shape), pos(rng, shape, -1, 1)
    k = int(rng.randint(1, 6))
    m, (L, q, lam) = off + grid(k), spd(rng, k, -1, 1)
    pu, pm = [], []
    for _ in range(3):
        e, var = off + grid(*shape), pos(rng, shape, -2, 1)
        pu.append((ctx.call('uvn_prior', ef.uvn_prior, mean, info, e, var), -0.5 * info * ((e - mean) ** 2 + var)))
        c = spd(rng, k, -1, 1)[0]
        e = off + grid(k)
        pm.append((ctx.call('mvn_prior', ef.mvn_prior, m, L, e, c),
                   -0.5 * np.sum(lam * np.dot(q.T, e - m) ** 2) - 0.5 * np.sum(L * c)))
    same_constant(ctx, 'univariate normal prior', pu, 'offset {}'.format(off))
    same_constant(ctx, 'multivariate normal prior', pm, 'offset {}'.format(off))


@scenario('C29', 240)
def dirichlet_prior(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 7)) if ctx.index % 8 else int(rng.randint(12, 60))
    alpha = pos(rng, k, *[(-1, 4.), (-1, 1.5), (-1, 4.), (-10, -3)][ctx.index % 4])
    ctx.struct('dirichlet prior {}'.format(k))
    pairs = []
    for _ in range(3):
        n = int(rng.randint(1, 5))
        w = weights(rng, n)
        x = rng.dirichlet(np.ones(k), size=n)
        x = np.maximum(x, 1e-12)
        pairs.append((ctx.call('dirichlet_prior', ef.dirichlet_prior, alpha, np.dot(w, np.log(x))),
                      np.dot(w, np.dot(np.log(x), alpha - 1))))
    same_constant(ctx, 'dirichlet prior', pairs, '{}'.format(alpha))
    ctx.refused('mismatched shapes refused', lambda: ef.dirichlet_prior(alpha, np.zeros(k + 1)), 'shapes')


@scenario('C29', 240)
def lkj_prior(ctx):
    rng = ctx.rng
    k = int(rng.randint(1, 5)) if ctx.index % 6 else int(rng.randint(8, 20))
    eta = float(pos(rng, None, -1, 1.2))
    ctx.struct('lkj {}'.format(k))
    pairs = []
    size = 1.
    for _ in range(3):
        v, q, lam = spd(rng, k, -1, 1)
        df = k - 1 + float(pos(rng, None, -0.7, 2))
        f = quad.wishart(df, lam)
        # The information matrix is Wishart; its inverse has the correlations.
        e = -f['e_log_det'] - np.sum(np.log(np.sum(q ** 2 / lam, axis=1)) + f['minus_e_log_chi2'])
        pairs.append((ctx.call('expected_ljk_prior', ef.expected_ljk_prior, eta, df, v), (eta - 1) * e))
        # Rescaling the variables leaves the correlations alone.
        s = pos(rng, k, -0.5, 0.5) * (1. if ctx.index % 2 else float(pos(rng, None, -5, 5)))
        pairs.append((ctx.call('expected_ljk_prior', ef.expected_ljk_prior, eta, df, v * np.outer(s, s)), (eta - 1) * e))
    same_constant(ctx, 'lkj prior', [(np.asarray(a), np.asarray(b)) for a, b in pairs], '{}'.format(eta))


@scenario('C29', 320)
def natural(ctx):
    rng = ctx.rng
    shape = shape_of(rng)
    mean, info = 3 * rng.randn(*shape), pos(rng, shape, -3, 3)
    ctx.struct('natural {}'.format(shape))
    # log p = -info / 2 (x - mean)^2 + C
    m, i = ctx.call('get_uvn_from_natural_parameters', ef.get_uvn_from_natural_parameters, info * mean, -0.5 * info)
    ctx.close('natural parameters', m, mean, 1e-12 * (1 + np.abs(mean)), '')
    ctx.close('natural parameters', i, info, 1e-12 * info, '')


@scenario('C29', 320)
def log_prob(ctx):
    rng = ctx.rng
    shape = shape_of(rng)
    each = bool(rng.randint(2))
    ps = shape if each else ()
    mean = 3 * rng.randn(*ps) if ps else float(3 * rng.randn())
    info = pos(rng, ps, -4, 4) if ps else float(pos(rng, None, -4, 4))
    u = mean + rng.randn(*shape) * 3 / np.sqrt(info)
    ctx.struct('log prob {} {}'.format(shape, each))
    got = ctx.call('univariate_normal_log_prob', modeling.univariate_normal_log_prob, u, mean, info)
    z, w = quad.normal_grid()
    logz = np.log(np.sum(np.exp(-0.5 * z ** 2)) * (z[1] - z[0])) - 0.5 * np.log(info)
    want = -0.5 * ((u - mean) * np.sqrt(info)) ** 2 - logz
    ctx.close('log probability', got, want + np.zeros(shape), 1e-11 * (1 + np.abs(want)), '{} {} {}'.format(u, mean, info))
    if not each:
        x = mean + z / np.sqrt(info)
        p = np.exp(modeling.univariate_normal_log_prob(x, mean, info))
        ctx.close('density integrates to one', np.sum(p) * (z[1] - z[0]) / np.sqrt(info), 1., 1e-9, '{} {}'.format(mean, info))
