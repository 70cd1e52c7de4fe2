"""Numeric oracles: spectral differentiation of executed maps.

A map phi(t) is executed at the 17 Chebyshev extreme points of [-r, r]; the
derivatives at zero of its interpolating polynomial are accurate to near
rounding for maps that are analytic around the interval.  The nested subset of
9 points gives an elementwise (conservative) error estimate; where the two
disagree too much the oracle abstains rather than accuses.
"""
import numpy as np

_W = {}


def _weights(n, kmax):
    """W[k, j]: weight of node j in the k-th derivative at 0 on [-1, 1]."""
    key = (n, kmax)
    if key not in _W:
        x = np.cos(np.pi * np.arange(n) / (n - 1.))
        x[np.abs(x) < 1e-12] = 0.
        V = np.polynomial.chebyshev.chebvander(x, n - 1)
        Vinv = np.linalg.inv(V)
        rows = []
        for k in range(kmax + 1):
            d = np.zeros(n)
            for j in range(n):
                c = np.zeros(n)
                c[j] = 1.
                ck = np.polynomial.chebyshev.chebder(c, k) if k else c
                d[j] = np.polynomial.chebyshev.chebval(0., ck) if len(ck) else 0.
            rows.append(np.dot(d, Vinv))
        _W[key] = (x, np.array(rows))
    return _W[key]


def derivs(phi, kmax=1, r=0.2, mag=0.):
    """(D, E): D[k] is the k-th derivative of phi at 0, E[k] its elementwise
    error estimate.  mag is the magnitude of intermediate quantities that
    cancel inside phi, if larger than phi itself."""
    n1, n2 = 9, 17
    x, W2 = _weights(n2, kmax)
    _, W1 = _weights(n1, kmax)
    vals = np.array([np.asarray(phi(r * t), dtype=float) for t in x])
    big = np.max(np.abs(vals), axis=0)
    d1 = np.tensordot(W1, vals[::2], axes=(1, 0))
    d2 = np.tensordot(W2, vals, axes=(1, 0))
    out, err = [], []
    for k in range(kmax + 1):
        noise = 4e-16 * (big + mag) * np.sum(np.abs(W2[k])) / r ** k
        out.append(d2[k] / r ** k)
        err.append(np.abs(d1[k] - d2[k]) / r ** k + noise)
    return out, err


def scale_of(*arrs):
    m = 0.
    for a in arrs:
        a = np.asarray(a, float)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def compare(ctx, monitor, got, want, err, rel=1e-7, floor=1e-11, msg=''):
    """Compare a reported derivative with the measured one; abstain when the
    measurement itself is not precise enough."""
    want = np.asarray(want, float)
    err = np.asarray(err, float)
    if not (np.all(np.isfinite(want)) and np.all(np.isfinite(err))):
        ctx.abandon('measurement not finite: ' + monitor)
        return False
    if want.size and np.max(err) > 1e-4 * max(scale_of(want), 1e-3):
        ctx.abandon('measurement too imprecise: ' + monitor)
        return False
    ctx.close(monitor, got, want,
              rel * np.abs(want) + 5 * err + floor * max(1., scale_of(want)), msg)
    return True


def second_mixed(phi2, r=0.2, mag=0.):
    """d^2/ds dt phi2(s, t) at 0 by polarization of spectral derivatives."""
    dp, ep = derivs(lambda t: phi2(t, t), 2, r, mag=mag)
    dm, em = derivs(lambda t: phi2(t, -t), 2, r, mag=mag)
    return 0.25 * (dp[2] - dm[2]), 0.25 * (ep[2] + em[2])


# --------------------------------------------------------------------------
# Closed forms for elementwise bounds and simplexes, accurate entry by entry
# however far out the free value is.

def _sigma(x):
    return np.where(x > 0, 1. / (1. + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1. + np.exp(-np.abs(x))))


def bounded_derivs(lb, ub, f):
    """First and second derivative of the constrained value, elementwise, and
    their error scale in the usual evaluation."""
    f = np.asarray(f, float)
    if lb == -np.inf and ub == np.inf:
        return np.ones_like(f), np.zeros_like(f), np.ones_like(f)
    if ub == np.inf:
        return np.exp(f), np.exp(f), np.exp(f)
    if lb == -np.inf:
        return np.exp(-f), -np.exp(-f), np.exp(-f)
    w = float(ub) - float(lb)
    s, r = _sigma(f), _sigma(-f)
    # e / (1 + e) is usually differentiated as a difference of order s.
    return w * s * r, w * s * r * (r - s), w * s


def simplex_derivs(f):
    """One row: probabilities, Jacobian, Hessians, with the first free value
    fixed at zero."""
    z = np.concatenate([[0.], f])
    z = z - np.max(z)
    p = np.exp(z) / np.sum(np.exp(z))
    k = f.size
    d = np.vstack([np.zeros((1, k)), np.eye(k)])   # d z_i / d f_j
    q = p[1:]
    J = p[:, None] * (d - q)
    dq = np.diag(q) - np.outer(q, q)
    H = p[:, None, None] * ((d - q)[:, :, None] * (d - q)[:, None, :] - dq)
    return p, J, H
