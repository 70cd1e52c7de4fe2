"""One-dimensional integrals by the trapezoid rule in a coordinate where the
log weight is concave and the integrand decays exponentially, which converges
exponentially fast.  No special functions: normalizers are integrated too."""
import numpy as np

DROP = 46.


def _edge(logw, mode, top, sign, scale):
    """Where a concave log weight has fallen by DROP below its top."""
    a = scale
    while logw(np.array([mode + sign * a]))[0] > top - DROP:
        a *= 1.5
        if a > 1e9:
            break
    lo, hi = a / 1.5 if a > scale else 0., a
    for _ in range(20):
        m = 0.5 * (lo + hi)
        if logw(np.array([mode + sign * m]))[0] > top - DROP:
            lo = m
        else:
            hi = m
    return mode + sign * hi


def grid(logw, mode, scale, step):
    """(u, w): nodes and weights summing to one, and log of the integral."""
    top = logw(np.array([mode]))[0]
    a, b = _edge(logw, mode, top, -1., scale), _edge(logw, mode, top, 1., scale)
    n = int(min(max(1500, (b - a) / step), 400000)) + 1
    u = np.linspace(a, b, n)
    h = u[1] - u[0]
    lw = logw(u) - top
    w = np.exp(lw)
    s = np.sum(w)
    return u, w / s, top + np.log(s * h)


def gamma(shape, rate=1.):
    """Facts about a gamma variable, by integration over u = log x."""
    if shape < 0.02:
        # The tail is too long to integrate: one integration by parts.
        f = gamma(shape + 1., rate)
        logz, e_log = f['logz'] - np.log(shape / rate), f['e_log'] - 1. / shape
        return {'logz': logz, 'e_log': e_log, 'e': shape / rate, 'entropy': logz - (shape - 1.) * e_log + shape,
                'size': 1. + abs(e_log) + abs(logz)}

    def logw(u):
        return shape * u - rate * np.exp(u)
    mode = np.log(shape / rate)
    u, w, logz = grid(logw, mode, 1. / np.sqrt(shape), 0.04)
    x = np.exp(u)
    e_log, e = np.sum(w * u), np.sum(w * x)
    # Centred, to keep the cancellation out of the sum.
    c = mode
    e_logq = np.sum(w * ((shape - 1.) * (u - c) - rate * (x - shape / rate)))
    return {'logz': logz, 'e_log': e_log, 'e': e,
            'entropy': (logz - (shape - 1.) * c + shape) - e_logq,
            'size': 1. + abs(shape) * (1 + abs(c)) + abs(logz)}


def beta(a, b):
    """Facts about a beta variable, by integration over its logit."""
    def logs(u):
        return -np.logaddexp(0., -u), -np.logaddexp(0., u)

    def logw(u):
        l1, l2 = logs(u)
        return a * l1 + b * l2
    mode = np.log(a / b)
    u, w, logz = grid(logw, mode, np.sqrt(1. / a + 1. / b), 0.04)
    l1, l2 = logs(u)
    m1, m2 = logs(np.array([mode]))
    m1, m2 = m1[0], m2[0]
    rest = np.sum(w * ((a - 1) * (l1 - m1) + (b - 1) * (l2 - m2)))
    return {'logz': logz, 'e_log': np.sum(w * l1), 'e_log1m': np.sum(w * l2), 'e': np.sum(w * np.exp(l1)),
            'entropy': (logz - (a - 1) * m1 - (b - 1) * m2) - rest,
            'size': 1. + abs(logz) + (a + 1) * abs(m1) + (b + 1) * abs(m2)}


def dirichlet(alpha):
    """Entropy by the chain rule over the sticks, and marginal expectations."""
    alpha = np.asarray(alpha, float)
    tot = np.sum(alpha)
    rest = tot
    h, stick, size = 0., 0., 1.
    for k in range(len(alpha) - 1):
        rest = np.sum(alpha[k + 1:])
        f = beta(alpha[k], rest)
        h += f['entropy'] + stick
        stick += f['e_log1m']
        size += f['size'] + abs(stick)
    e_log, e = [], []
    for k in range(len(alpha)):
        if len(alpha) == 1:
            e_log.append(0.)
            e.append(1.)
            continue
        f = beta(alpha[k], tot - alpha[k])
        e_log.append(f['e_log'])
        e.append(f['e'])
    return {'entropy': h, 'e_log': np.array(e_log), 'e': np.array(e), 'size': size}


def wishart(df, lam):
    """Facts about a Wishart whose scale matrix has eigenvalues lam, through
    the Bartlett decomposition."""
    k = len(lam)
    logdet = float(np.sum(np.log(lam)))
    e_log_det, h, size = logdet, 0.5 * (k + 1) * logdet, 1. + abs(logdet) * k
    h += k * np.log(2.) + 0.25 * k * (k - 1) * np.log(2. * np.pi * np.e)
    for i in range(k):
        # The i-th diagonal entry squared is chi squared, a gamma.
        f = gamma(0.5 * (df - i), 0.5)
        e_log_det += f['e_log']
        # Entropy of its square root, and the Jacobian of W = A A'.
        h += f['entropy'] - np.log(2.) - 0.5 * f['e_log'] + 0.5 * (k - i) * f['e_log']
        size += f['size'] * k
    f = gamma(0.5 * (df - k + 1), 0.5)
    return {'e_log_det': e_log_det, 'entropy': h, 'minus_e_log_chi2': -f['e_log'], 'size': size}


def normal_grid(n=4001, width=39.):
    z = np.linspace(-width, width, n)
    w = np.exp(-0.5 * z ** 2)
    return z, w / np.sum(w)
