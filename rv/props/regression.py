"""C31: regression utilities."""
import numpy as np
import LinearResponseVariationalBayes.regression_utils as ru

from core import scenario, prop

prop('C31', rule='batch shapes of dimension zero to three, extra response dimensions of zero to five, sizes from one to six, every memory layout, homoskedastic and full error information; references are loops over the batch with explicit least squares and log densities',
     required=['matrix product', 'vector product', 'likelihood log density', 'prior log density', 'coefficients', 'normal equations', 'posterior mean',
               'posterior information', 'conversion', 'batch shape', 'arguments unchanged', 'refused'],
     assumptions=['the information matrices are symmetric positive definite', 'the design has full column rank where a solution is asked for'])


def lay(ctx, a):
    if a.ndim == 0:
        return a
    k = ctx.rng.randint(4)
    if k < 2:
        return a
    if k == 2:
        return np.asfortranarray(a)
    b = np.zeros(tuple(2 * s for s in a.shape))
    b = b[tuple(slice(None, None, 2) for _ in a.shape)]
    b[...] = a
    return b


def lay_int(ctx, a):
    a = np.asarray(a, dtype=int)
    return np.asfortranarray(a) if ctx.rng.randint(2) else a


def dims(ctx, hi, n=4):
    return tuple(int(ctx.rng.randint(1, n)) for _ in range(ctx.rng.randint(0, hi)))


class Frozen(object):
    def __init__(self, ctx, *arrays):
        self.ctx, self.arrays = ctx, arrays
        self.copies = [np.array(a) for a in arrays]

    def done(self):
        for a, c in zip(self.arrays, self.copies):
            self.ctx.same('arguments unchanged', a, c)


def spd(ctx, batch, r, cond=1.5):
    out = np.zeros(batch + (r, r))
    for b in np.ndindex(*batch):
        q, _ = np.linalg.qr(ctx.rng.normal(size=(r, r)))
        lam = 10. ** ctx.rng.uniform(-cond / 2, cond / 2, size=r)
        m = np.dot(q * lam, q.T)
        out[b] = 0.5 * (m + m.T)
    return out


def tmul(a, b):
    """a' b by sums of products."""
    out = np.zeros((a.shape[1], b.shape[1]))
    for i in range(a.shape[1]):
        for j in range(b.shape[1]):
            out[i, j] = np.sum(a[:, i] * b[:, j])
    return out


@scenario('C31', 240)
def products(ctx):
    batch = dims(ctx, 4)
    s, r, t = [int(v) for v in ctx.rng.randint(1, 7, size=3)]
    x1, x2 = lay(ctx, ctx.rng.normal(size=batch + (s, r))), lay(ctx, ctx.rng.normal(size=batch + (s, t)))
    ctx.struct('{} {}x{}x{}'.format(batch, s, r, t))
    frozen = Frozen(ctx, x1, x2)
    got = ctx.call('mat_mul_last2dims', ru.mat_mul_last2dims, x1, x2)
    want = np.zeros(batch + (r, t))
    for b in np.ndindex(*batch):
        want[b] = tmul(x1[b], x2[b])
    ctx.close('matrix product', got, want, 1e-13 * (1 + s) * 10)

    extra = dims(ctx, 3) if ctx.rng.rand() < 0.6 else dims(ctx, 6, 3)
    y = lay(ctx, ctx.rng.normal(size=batch + extra + (s,)))
    ctx.struct('extra {}'.format(extra))
    frozen2 = Frozen(ctx, y)
    got = ctx.call('matvec_mul_last2dims', ru.matvec_mul_last2dims, x1, y)
    want = np.zeros(batch + (r,))
    for b in np.ndindex(*batch):
        for e in np.ndindex(*extra):
            for i in range(r):
                want[b + (i,)] += np.sum(x1[b][:, i] * y[b + e])
    ctx.close('vector product', got, want, 1e-12 * (1 + s) * (1 + np.prod(extra)))
    frozen.done()
    frozen2.done()
    k = ctx.rng.randint(3)
    if k == 0:
        ctx.refused('refused', lambda: ru.mat_mul_last2dims(x1, ctx.rng.normal(size=batch + (s + 1, t))), 'inner sizes differ')
    elif k == 1:
        ctx.refused('refused', lambda: ru.matvec_mul_last2dims(x1, ctx.rng.normal(size=batch + (s + 1,))), 'inner sizes differ')
    elif batch:
        ctx.refused('refused', lambda: ru.matvec_mul_last2dims(x1, ctx.rng.normal(size=batch[1:] + (s,))), 'fewer batch dimensions')


class Case(object):
    def __init__(self, ctx):
        rng = ctx.rng
        self.batch, self.extra = dims(ctx, 4), dims(ctx, 3) if rng.rand() < 0.6 else dims(ctx, 6, 3)
        self.r = int(rng.randint(1, 5))
        self.s = self.r + int(rng.randint(0, 4))
        scale = 10. ** rng.uniform(-1, 1)
        x = np.zeros(self.batch + (self.s, self.r))
        # Designs with a bounded condition number.
        for b in np.ndindex(*self.batch):
            u, _ = np.linalg.qr(rng.normal(size=(self.s, self.r)))
            v, _ = np.linalg.qr(rng.normal(size=(self.r, self.r)))
            x[b] = np.dot(u * 10. ** rng.uniform(-0.7, 0.7, size=self.r), v.T)
        self.x = lay(ctx, x * scale)
        self.y = lay(ctx, rng.normal(size=self.batch + self.extra + (self.s,)) * 10. ** rng.uniform(-1, 1))
        self.homosked = rng.rand() < 0.4
        if self.homosked:
            v = 10. ** rng.uniform(-2, 2)
            self.info = [float(v), np.float64(v), int(1 + v)][rng.randint(3)]
        else:
            self.info = lay(ctx, spd(ctx, self.batch, self.s))
        self.p_mean = lay(ctx, rng.normal(size=self.batch + (self.r,)))
        self.p_info = lay(ctx, spd(ctx, self.batch, self.r) * 10. ** rng.uniform(-1, 1))
        if rng.rand() < 0.15:
            self.whole_numbers(ctx)
        self.arrays = [self.x, self.y, np.asarray(self.info) if self.homosked else self.info, self.p_mean, self.p_info]
        ctx.struct('{} {} {}x{} {}'.format(self.batch, self.extra, self.s, self.r, 'scalar' if self.homosked else 'full'))

    def whole_numbers(self, ctx):
        """Counts and design codes: integer arrays."""
        rng = ctx.rng
        ctx.feat('integers')
        x = rng.randint(-4, 5, size=np.shape(self.x))
        for b in np.ndindex(*self.batch):
            # Full rank.
            x[b][:self.r, :self.r] = np.tril(x[b][:self.r, :self.r], -1) + np.diag(rng.randint(1, 4, size=self.r))
        self.x = lay_int(ctx, x)
        self.y = lay_int(ctx, rng.randint(-9, 10, size=np.shape(self.y)))
        self.p_mean = lay_int(ctx, rng.randint(-5, 6, size=np.shape(self.p_mean)))

        def info(k):
            out = np.zeros(self.batch + (k, k), dtype=int)
            for b in np.ndindex(*self.batch):
                a = rng.randint(-1, 2, size=(k, k))
                out[b] = np.dot(a, a.T) + np.diag(rng.randint(1, 4, size=k))
            return lay_int(ctx, out)
        if rng.rand() < 0.7:
            self.p_info = info(self.r)
        if self.homosked:
            self.info = [1, 3, np.int64(2)][rng.randint(3)]
        elif rng.rand() < 0.7:
            self.info = info(self.s)

    def lam(self, b):
        return np.eye(self.s) * float(self.info) if self.homosked else np.array(self.info[b])

    def loglik(self, b, beta):
        tot, size = 0., 1.
        L = self.lam(b)
        for e in np.ndindex(*self.extra):
            d = self.y[b + e] - np.dot(self.x[b], beta)
            t = -0.5 * np.dot(d, np.dot(L, d))
            tot += t
            size += abs(t)
        return tot, size

    def logprior(self, b, beta):
        d = beta - self.p_mean[b]
        t = -0.5 * np.dot(d, np.dot(self.p_info[b], d))
        return t, 1. + abs(t)

    def n_extra(self):
        return int(np.prod(self.extra)) if self.extra else 1


def density(ctx, monitor, c, nat1, nat2, logp):
    """The natural parameters give differences of the log density."""
    ctx.check('batch shape', np.shape(nat1) == c.batch + (c.r,) and np.shape(nat2) == c.batch + (c.r, c.r),
              'shapes {} {} for batch {} and {} coefficients'.format(np.shape(nat1), np.shape(nat2), c.batch, c.r))
    for b in np.ndindex(*c.batch):
        b1, b2 = ctx.rng.normal(size=c.r), ctx.rng.normal(size=c.r) * 3
        f = lambda beta: np.dot(nat1[b], beta) + np.dot(beta, np.dot(nat2[b], beta))
        (l1, s1), (l2, s2) = logp(b, b1), logp(b, b2)
        # A bound on the terms in the natural form.
        l0, s0 = logp(b, np.zeros(c.r))
        ctx.close(monitor, np.asarray(f(b1) - f(b2)), np.asarray(l1 - l2), 1e-11 * (s1 + s2 + s0) * (c.s + c.r), 'batch element {}'.format(b))


def likelihood_size(c, b):
    return np.linalg.norm(c.x[b], 2)


@scenario('C31', 300)
def natural(ctx):
    c = Case(ctx)
    frozen = Frozen(ctx, *c.arrays)
    n1, n2 = ctx.call('get_nat_params_from_likelihood', ru.get_nat_params_from_likelihood, c.y, c.x, c.info)
    density(ctx, 'likelihood log density', c, n1, n2, c.loglik)
    p1, p2 = ctx.call('get_nat_params_from_prior', ru.get_nat_params_from_prior, c.p_mean, c.p_info)
    density(ctx, 'prior log density', c, p1, p2, c.logprior)
    m, i = ctx.call('get_mvn_from_nat_params', ru.get_mvn_from_nat_params, p1, p2)
    ctx.close('conversion', np.asarray(m), np.array(c.p_mean), 1e-11, 'prior mean')
    ctx.close('conversion', np.asarray(i), np.array(c.p_info), 1e-12 * np.max(np.abs(c.p_info)), 'prior information')
    frozen.done()
    k = ctx.rng.randint(4)
    if k == 0:
        ctx.refused('refused', lambda: ru.get_nat_params_from_likelihood(ctx.rng.normal(size=c.batch + c.extra + (c.s + 1,)), c.x, c.info), 'response size')
    elif k == 1:
        ctx.refused('refused', lambda: ru.get_nat_params_from_likelihood(c.y, c.x, spd(ctx, c.batch, c.s + 1)), 'information size')
    elif k == 2:
        ctx.refused('refused', lambda: ru.get_nat_params_from_prior(ctx.rng.normal(size=c.batch + (c.r + 1,)), c.p_info), 'prior size')


@scenario('C31', 60)
def units(ctx):
    """Coefficients in very different units, which do not interact: each is
    as accurate as if it were alone."""
    rng = ctx.rng
    r = int(rng.randint(1, 15))
    u = 10. ** rng.uniform(-8, 8, size=r)
    batch = (2,) if rng.rand() < 0.3 else ()
    ctx.struct('units {} {}'.format(r, batch))
    mean = rng.normal(size=batch + (r,)) * u
    d = rng.uniform(0.5, 2, size=batch + (r,)) / u ** 2
    info = np.eye(r) * d[..., None]
    n1, n2 = ctx.call('get_nat_params_from_prior', ru.get_nat_params_from_prior, mean, info)
    ctx.close('prior log density', np.asarray(n1), d * mean, 1e-13 * np.abs(d * mean), 'units')
    m, i = ctx.call('get_mvn_from_nat_params', ru.get_mvn_from_nat_params, n1, n2)
    ctx.close('conversion', np.asarray(m), mean, 1e-12 * np.abs(mean), 'units {}'.format(u))
    ctx.close('conversion', np.asarray(i), info, 1e-13 * np.abs(info), 'units {}'.format(u))
    # Every coefficient sees responses of its own.
    per = int(rng.randint(1, 3))
    s = r * per
    x = np.zeros(batch + (s, r))
    for j in range(r):
        x[..., j * per:(j + 1) * per, j] = rng.uniform(0.5, 2, size=batch + (per,)) * rng.choice([-1, 1]) / u[j]
    lam = rng.uniform(0.5, 2, size=batch + (s,))
    y = rng.normal(size=batch + (s,))
    linfo = np.eye(s) * lam[..., None]
    ly = lam * y
    a = np.sum(x * (lam[..., None] * x), axis=-2)
    b = np.sum(x * ly[..., None], axis=-2)
    babs = np.sum(np.abs(x * ly[..., None]), axis=-2)
    beta = ctx.call('get_regression_coefficients', ru.get_regression_coefficients, y, x, linfo)
    ctx.close('coefficients', np.asarray(beta), b / a, 1e-12 * babs / a, 'units {}'.format(u))
    pm, pi = ctx.call('get_posterior_regression_coefficients', ru.get_posterior_regression_coefficients, y, x, linfo, mean, info)
    ctx.close('posterior mean', np.asarray(pm), (b + d * mean) / (a + d), 1e-12 * (babs + np.abs(d * mean)) / (a + d), 'units {}'.format(u))
    ctx.close('posterior information', np.asarray(pi), np.eye(r) * (a + d)[..., None], 1e-13 * np.eye(r) * (a + d)[..., None], 'units {}'.format(u))


@scenario('C31', 300)
def solutions(ctx):
    c = Case(ctx)
    frozen = Frozen(ctx, *c.arrays)
    beta = ctx.call('get_regression_coefficients', ru.get_regression_coefficients, c.y, c.x, c.info)
    mean, info = ctx.call('get_posterior_regression_coefficients', ru.get_posterior_regression_coefficients, c.y, c.x, c.info, c.p_mean, c.p_info)
    ctx.check('batch shape', np.shape(beta) == c.batch + (c.r,) and np.shape(mean) == c.batch + (c.r,) and
              np.shape(info) == c.batch + (c.r, c.r), 'shapes {} {} {}'.format(np.shape(beta), np.shape(mean), np.shape(info)))
    for b in np.ndindex(*c.batch):
        L = c.lam(b)
        # Whitened least squares over all the extra responses.
        lam, q = np.linalg.eigh(L)
        half = np.dot((q * np.sqrt(lam)), q.T)
        A = np.concatenate([np.dot(half, c.x[b])] * c.n_extra())
        z = np.concatenate([np.dot(half, c.y[b + e]) for e in np.ndindex(*c.extra)])
        want, _, _, sv = np.linalg.lstsq(A, z, rcond=None)
        cond = (sv[0] / sv[-1]) ** 2
        size = np.linalg.norm(z) / sv[-1]
        ctx.close('coefficients', beta[b], want, 1e-14 * (10 + c.s) * cond * size + 1e-14, 'batch element {}'.format(b))
        g = np.dot(A.T, z - np.dot(A, beta[b]))
        ctx.close('normal equations', g, np.zeros(c.r), 1e-13 * (10 + c.s) * cond * sv[0] * (np.linalg.norm(z) + 1e-300), 'batch element {}'.format(b))
        # The posterior stacks the whitened prior below.
        pl, pq = np.linalg.eigh(c.p_info[b])
        ph = np.dot(pq * np.sqrt(pl), pq.T)
        A2 = np.concatenate([A, ph])
        z2 = np.concatenate([z, np.dot(ph, c.p_mean[b])])
        want, _, _, sv = np.linalg.lstsq(A2, z2, rcond=None)
        cond = (sv[0] / sv[-1]) ** 2
        ctx.close('posterior mean', mean[b], want, 1e-14 * (10 + c.s) * cond * np.linalg.norm(z2) / sv[-1] + 1e-14, 'batch element {}'.format(b))
        want = c.n_extra() * tmul(c.x[b], np.dot(L, c.x[b])) + c.p_info[b]
        ctx.close('posterior information', info[b], want, 1e-13 * (10 + c.s) * sv[0] ** 2, 'batch element {}'.format(b))
    frozen.done()
