"""C19: Jacobian-vector products and the algebra of derivative terms."""
import itertools
import math
import numpy as onp
import autograd.numpy as np
import LinearResponseVariationalBayes.ModelSensitivity as sens_lib

from core import scenario, prop
import oracles

prop('C19', rule='random multi-argument functions built from ridge functions, whose mixed directional derivatives of every order are known in closed form, random explicit and implicit curves with known derivatives, and random term lists with repeated signatures; values, derivatives and sums of terms are compared with the closed forms, and every list passed in is compared with a copy',
     required=['directional derivative', 'derivative array', 'term value', 'derivative of a term', 'total derivative',
               'consolidation keeps the sum', 'one term per signature', 'consolidation leaves its input', 'sum of terms',
               'sum without the highest order', 'implicit derivative'],
     assumptions=['autograd\'s own forward derivatives of exp, sin, tanh, powers and dot products are exact'])

PHI = {
    'exp': (np.exp, lambda u, n: onp.exp(u)),
    'sin': (np.sin, lambda u, n: onp.sin(u + 0.5 * n * onp.pi)),
    'cos': (np.cos, lambda u, n: onp.cos(u + 0.5 * n * onp.pi)),
    'square': (lambda u: u ** 2, lambda u, n: [u ** 2, 2 * u, 2.][n] if n < 3 else 0.),
    'quartic': (lambda u: u ** 4 + u, lambda u, n: [u ** 4 + u, 4 * u ** 3 + 1., 12 * u ** 2, 24 * u, 24.][n] if n < 5 else 0.),
    'linear': (lambda u: u, lambda u, n: [u, 1.][n] if n < 2 else 0.),
    'log': (lambda u: np.log(5. + u), lambda u, n: onp.log(5. + u) if n == 0 else -math.factorial(n - 1) * (-1. / (5. + u)) ** n),
}


class Ridge(object):
    """f(x_1, ..., x_B) = sum_k c_k phi_k(a_k1 . x_1 + ... + a_kB . x_B)."""

    def __init__(self, rng, sizes, out):
        self.K = int(rng.randint(1, 5))
        self.sizes, self.out = sizes, out
        tot = float(sum(sizes))
        self.A = [rng.randn(self.K, n) / onp.sqrt(tot) for n in sizes]
        self.C = rng.randn(*(([out] if out else []) + [self.K]))
        self.kinds = [list(sorted(PHI))[rng.randint(len(PHI))] for _ in range(self.K)]

    def describe(self):
        return '{}->{} {}'.format(self.sizes, self.out, '+'.join(self.kinds))

    def __call__(self, *x):
        u = 0.
        for A, xi in zip(self.A, x):
            u = u + np.dot(A, xi)
        vals = np.hstack([PHI[k][0](u[i:i + 1]) for i, k in enumerate(self.kinds)])
        return np.dot(self.C, vals)

    def deriv(self, x, dirs):
        """dirs: list of (argument, direction)."""
        u = sum(onp.dot(A, xi) for A, xi in zip(self.A, x))
        n = len(dirs)
        vals = onp.array([PHI[k][1](u[i], n) for i, k in enumerate(self.kinds)], float)
        mag = onp.abs(vals) + 1e-3
        for arg, v in dirs:
            vals = vals * onp.dot(self.A[arg], v)
            mag = mag * onp.dot(onp.abs(self.A[arg]), onp.abs(v))
        return onp.dot(self.C, vals), float(onp.max(onp.dot(onp.abs(self.C), mag)))


def point(rng, n):
    return rng.uniform(-1, 1, size=n)


@scenario('C19', 200)
def jvp(ctx):
    rng = ctx.rng
    B = 1 + ctx.index % 3
    sizes = [int(rng.randint(1, 5)) for _ in range(B)]
    f = Ridge(rng, sizes, [0, 1, 3][rng.randint(3)])
    order = int(rng.randint(1, 5))
    ctx.struct('{} args order {} {}'.format(B, order, f.describe()))
    args = [int(rng.randint(B)) for _ in range(order)]
    h = f
    fs = [f]
    for a in args:
        if a == 0 and rng.rand() < 0.3:
            h = ctx.call('append_jvp', sens_lib.append_jvp, h, num_base_args=B) if B > 1 or rng.rand() < 0.5 else \
                ctx.call('append_jvp', sens_lib.append_jvp, h)
        else:
            h = ctx.call('append_jvp', sens_lib.append_jvp, h, num_base_args=B, argnum=a)
        fs.append(h)
    for _ in range(2):
        x = [point(rng, n) for n in sizes]
        dirs = [(a, rng.randn(sizes[a])) for a in args]
        keep = [v.copy() for v in x] + [v.copy() for _, v in dirs]
        ks = list(range(order + 1))
        rng.shuffle(ks)
        for k in ks:
            got = ctx.call('jvp', fs[k], *(x + [v for _, v in dirs[:k]]))
            want, mag = f.deriv(x, dirs[:k])
            ctx.close('directional derivative', got, want, 1e-11 * mag, 'order {} in {} of {}'.format(k, args[:k], f.describe()))
        for a, b in zip(keep, x + [v for _, v in dirs]):
            ctx.same('arguments unchanged', b, a)
    ctx.refused('unknown argument refused', lambda: sens_lib.append_jvp(f, num_base_args=B, argnum=B), 'argnum')


@scenario('C19', 60)
def derivative_array(ctx):
    rng = ctx.rng
    sizes = [int(rng.randint(1, 4)), int(rng.randint(1, 4))]
    f = Ridge(rng, sizes, [0, 1, 2, 3][rng.randint(4)])
    order = 1 + ctx.index % 4
    ctx.struct('array order {} {}'.format(order, f.describe()))
    arr = ctx.call('generate_two_term_derivative_array', sens_lib.generate_two_term_derivative_array, f, order)
    ctx.check('derivative array', len(arr) >= order and all(len(r) >= order for r in arr), 'array too small')
    x = [point(rng, n) for n in sizes]
    cells = [(i, j) for i in range(len(arr)) for j in range(len(arr[i])) if i + j <= 5]
    rng.shuffle(cells)
    for i, j in cells:
        dirs = [(0, rng.randn(sizes[0])) for _ in range(i)] + [(1, rng.randn(sizes[1])) for _ in range(j)]
        got = ctx.call('cell', arr[i][j], *(x + [v for _, v in dirs]))
        want, mag = f.deriv(x, dirs)
        ctx.close('derivative array', got, want, 1e-11 * mag, 'cell {} {} of order {} {}'.format(i, j, order, f.describe()))


class Curve(object):
    """eta(eps) = sum_k q_k psi_k(c_k . eps + e_k), with its derivatives."""

    def __init__(self, rng, n, p):
        self.r = Ridge(rng, [p], n)

    def at(self, eps):
        return onp.array(self.r(eps))

    def deriv(self, eps, deps, k):
        return self.r.deriv([eps], [(0, deps)] * k)[0]


def signatures(order):
    """All eta_orders of a given total order with the implied eps_order."""
    out = []
    for eta in itertools.product(*[range(order // (i + 1) + 1) for i in range(order)]):
        rest = order - sum((i + 1) * e for i, e in enumerate(eta))
        if rest >= 0:
            out.append((rest, list(eta)))
    return out


def setup(ctx, order):
    rng = ctx.rng
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    g = Ridge(rng, [n, p], n)
    curve = Curve(rng, n, p)
    arr = sens_lib.generate_two_term_derivative_array(g, order + 2)
    ctx.struct('order {} g {} curve {}'.format(order, g.describe(), curve.r.describe()))

    def eta_deriv(k):
        return lambda eta, eps, deps: curve.deriv(eps, deps, k)
    return n, p, g, curve, arr, eta_deriv


def fields(t):
    return (t.eps_order, list(t.eta_orders), t.prefactor, len(t.eval_eta_derivs), t.order,
            [len(r) for r in t.eval_g_derivs], id(t))


def term_truth(g, curve, sig, pref, eta, eps, deps):
    eps_order, eta_orders = sig
    dirs = []
    for i, e in enumerate(eta_orders):
        dirs += [(0, curve.deriv(eps, deps, i + 1))] * e
    dirs += [(1, deps)] * eps_order
    v, mag = g.deriv([eta, eps], dirs)
    return pref * v, abs(pref) * mag


def build(sig, pref, order, arr, eta_deriv):
    return sens_lib.DerivativeTerm(
        eps_order=sig[0], eta_orders=list(sig[1]), prefactor=pref,
        eval_eta_derivs=[eta_deriv(k + 1) for k in range(order)], eval_g_derivs=arr)


@scenario('C19', 90)
def single_term(ctx):
    rng = ctx.rng
    order = 1 + ctx.index % 3
    n, p, g, curve, arr, eta_deriv = setup(ctx, order)
    eps, deps = point(rng, p), rng.uniform(-1, 1, size=p)
    eta = point(rng, n) if rng.rand() < 0.3 else curve.at(eps)
    sigs = signatures(order)
    sig = sigs[rng.randint(len(sigs))]
    pref = float(rng.choice([1., -2., 3., 0.5]))
    # As many curve derivatives as the term's own order, less one.
    t = sens_lib.DerivativeTerm(
        eps_order=sig[0], eta_orders=list(sig[1]), prefactor=pref,
        eval_eta_derivs=[eta_deriv(k + 1) for k in range(order if sig[1][-1] else order - 1)], eval_g_derivs=arr)
    msg = 'term {} x{} {}'.format(sig, pref, g.describe())
    before = fields(t)
    want, mag = term_truth(g, curve, sig, pref, eta, eps, deps)
    ctx.close('term value', ctx.call('evaluate', t.evaluate, eta, eps, deps), want, 1e-10 * mag, msg)
    ctx.check('term order', t.order == order, msg)
    if not sig[1][-1]:
        new = ctx.call('differentiate', t.differentiate, eta_deriv(order))
        eta = curve.at(eps)
        nxt = order + 1

        def along(s):
            e = eps + s * deps
            return term_truth(g, curve, sig, pref, curve.at(e), e, deps)[0]
        D, E = oracles.derivs(along, 1, 0.25, mag=10 * mag)
        # The differentiated terms may need the next derivative of the curve.
        got = 0.
        for q in new:
            ctx.check('term order', q.order == nxt and len(q.eta_orders) == nxt, msg)
            v = q.evaluate(eta, eps, deps)
            w, m = term_truth(g, curve, (q.eps_order, q.eta_orders), q.prefactor, eta, eps, deps)
            ctx.close('term value', v, w, 1e-10 * m, msg)
            got = got + v
        oracles.compare(ctx, 'derivative of a term', got, D[1], E[1], floor=1e-9 * (1 + mag), msg=msg)
    else:
        new = ctx.call('differentiate', t.differentiate, eta_deriv(order + 1))
        eta = curve.at(eps)

        def along2(s):
            e = eps + s * deps
            return term_truth(g, curve, sig, pref, curve.at(e), e, deps)[0]
        D, E = oracles.derivs(along2, 1, 0.25, mag=10 * mag)
        got = sum(q.evaluate(eta, eps, deps) for q in new)
        oracles.compare(ctx, 'derivative of a term', got, D[1], E[1], floor=1e-9 * (1 + mag), msg=msg)
    ctx.check('differentiating leaves the term', fields(t) == before, msg)
    # Similarity and combination.
    other = sigs[rng.randint(len(sigs))]
    u = build(other, 2.5, order, arr, eta_deriv)
    ctx.check('similarity', bool(t.check_similarity(u)) == (other == sig), msg + ' and {}'.format(other))
    if other == sig:
        c = ctx.call('combine_with', t.combine_with, u)
        ctx.close('combined term', c.evaluate(eta, eps, deps),
                  term_truth(g, curve, sig, pref + 2.5, eta, eps, deps)[0], 1e-10 * mag * 6, msg)
    else:
        ctx.refused('combining different terms refused', lambda: t.combine_with(u), 'combine_with')
    ctx.check('differentiating leaves the term', fields(t) == before, msg)
    str(t)


@scenario('C19', 60)
def held_arrays(ctx):
    """The functions of the derivatives return arrays that they keep (as a
    constant derivative does): evaluating reads them and no more."""
    rng = ctx.rng
    order = int(rng.randint(1, 4))
    n = int(rng.randint(1, 4))
    table = rng.randn(order + 2, order + 2, n)
    etas = rng.randn(order + 1, n)
    cell = lambda i, j: lambda *a: table[i, j]
    g = [[cell(i, j) for j in range(order + 2)] for i in range(order + 2)]
    deta = [(lambda i: lambda *a: etas[i])(i) for i in range(order + 1)]
    held = (table.copy(), etas.copy())
    picks, terms = [], []
    for _ in range(int(rng.randint(1, 6))):
        orders = [0] * order
        left = order
        while left and rng.rand() < 0.8:
            i = rng.randint(1, left + 1)
            orders[i - 1] += 1
            left -= i
        pref = float(rng.choice([1., 1., -1., 2., 0.5]))
        picks.append((pref, left, sum(orders), orders[-1]))
        terms.append(sens_lib.DerivativeTerm(left, orders, pref, deta[:order], g))
    ctx.struct('held arrays {}'.format(picks))
    q, _ = onp.linalg.qr(rng.randn(n, n))
    hess = onp.dot(q * rng.uniform(0.5, 2., size=n), q.T)
    eta, eps, deps = rng.randn(n), rng.randn(2), rng.randn(2)
    for _ in range(3):
        msg = 'terms {}'.format(picks)
        want = sum(c * held[0][i, j] for c, j, i, top in picks)
        r = ctx.call('evaluate_terms', sens_lib.evaluate_terms, terms, eta, eps, deps)
        ctx.close('sum of terms', r, want, 1e-12 * len(picks) * 10, msg)
        low = [(c, j, i) for c, j, i, top in picks if top == 0]
        if low:
            r = ctx.call('evaluate_terms', sens_lib.evaluate_terms, terms, eta, eps, deps, include_highest_eta_order=False)
            ctx.close('sum without the highest order', r, sum(c * held[0][i, j] for c, j, i in low), 1e-11 * len(picks), msg)
            r = ctx.call('evaluate_dketa_depsk', sens_lib.evaluate_dketa_depsk, hess, terms, eta, eps, deps)
            ctx.close('solution for the highest order', onp.dot(hess, r), -sum(c * held[0][i, j] for c, j, i in low), 1e-11 * len(picks), msg)
        out = ctx.call('consolidate_terms', sens_lib.consolidate_terms, terms)
        r = ctx.call('evaluate_terms', sens_lib.evaluate_terms, out, eta, eps, deps)
        ctx.close('sum of terms', r, want, 1e-11 * len(picks), msg)
        ctx.same('held arrays unchanged', table, held[0], msg)
        ctx.same('held arrays unchanged', etas, held[1], msg)


@scenario('C19', 60)
def total_derivative(ctx):
    """Differentiating the base terms gives the derivatives of g along the curve."""
    rng = ctx.rng
    order = 1 + ctx.index % 4
    n, p, g, curve, arr, eta_deriv = setup(ctx, order)
    eps, deps = point(rng, p), rng.uniform(-1, 1, size=p)
    eta = curve.at(eps)

    def along(s):
        e = eps + s * deps
        return onp.array(g(curve.at(e), e))
    D, E = oracles.derivs(along, order, 0.25, mag=20.)
    terms = ctx.call('get_taylor_base_terms', sens_lib.get_taylor_base_terms, arr)
    for k in range(1, order + 1):
        # The base terms know no curve derivative yet, so complete them.
        full = [sens_lib.DerivativeTerm(t.eps_order, t.eta_orders, t.prefactor,
                                        [eta_deriv(j + 1) for j in range(k)], t.eval_g_derivs) for t in terms]
        msg = 'derivative {} of {}'.format(k, g.describe())
        mags = [term_truth(g, curve, (t.eps_order, t.eta_orders), t.prefactor, eta, eps, deps)[1] for t in full]
        tol = 1e-9 * sum(mags)
        got = ctx.call('evaluate_terms', sens_lib.evaluate_terms, full, eta, eps, deps)
        oracles.compare(ctx, 'total derivative', got, D[k], E[k], floor=tol, msg=msg)
        low = sens_lib.evaluate_terms(full, eta, eps, deps, include_highest_eta_order=False)
        top = g.deriv([eta, eps], [(0, curve.deriv(eps, deps, k))])[0]
        ctx.close('sum without the highest order', low, got - top, tol + 1e-12, msg)
        sigs = [(t.eps_order, tuple(t.eta_orders)) for t in full]
        if k == order:
            break
        new = []
        for t in terms:
            # Real use appends one derivative of the curve at a time.
            new += t.differentiate(eta_deriv(len(t.eval_eta_derivs) + 1))
        if rng.rand() < 0.7:
            new = sens_lib.consolidate_terms(new)
            sigs = [(t.eps_order, tuple(t.eta_orders)) for t in new]
            ctx.check('one term per signature', len(set(sigs)) == len(sigs), msg)
        terms = new


@scenario('C19', 120)
def consolidate(ctx):
    rng = ctx.rng
    order = 1 + ctx.index % 4
    n, p, g, curve, arr, eta_deriv = setup(ctx, order)
    eps, deps = point(rng, p), rng.uniform(-1, 1, size=p)
    eta = point(rng, n)
    sigs = signatures(order)
    few = [sigs[i] for i in rng.permutation(len(sigs))[:1 + rng.randint(4)]]
    picks = [few[rng.randint(len(few))] for _ in range(int(rng.randint(0, 9)))]
    prefs = [float(rng.choice([1., -1., 2., 0.25, -3.])) for _ in picks]
    terms = [build(s, c, order, arr, eta_deriv) for s, c in zip(picks, prefs)]
    ctx.struct('terms {}'.format([sigs.index(s) for s in picks]))
    before = [fields(t) for t in terms]
    out = ctx.call('consolidate_terms', sens_lib.consolidate_terms, terms)
    msg = 'terms {} {}'.format(picks, prefs)
    ctx.check('consolidation leaves its input', [fields(t) for t in terms] == before, msg)
    got = sorted((t.eps_order, tuple(t.eta_orders)) for t in out)
    ctx.check('one term per signature', got == sorted(set((s[0], tuple(s[1])) for s in picks)), lambda: msg + ' gave {}'.format(got))
    for t in out:
        want = sum(c for s, c in zip(picks, prefs) if s == (t.eps_order, list(t.eta_orders)))
        ctx.check('consolidation keeps the sum', abs(t.prefactor - want) < 1e-12, lambda: '{}: {} has {}'.format(msg, t, t.prefactor))
    if not picks:
        ctx.check('sum of terms', sens_lib.evaluate_terms([], eta, eps, deps) is None, 'no terms')
        return
    for high in (True, False):
        used = [(s, c) for s, c in zip(picks, prefs) if high or s[1][-1] == 0]
        vals = [term_truth(g, curve, s, c, eta, eps, deps) for s, c in used]
        for lst in (terms, out):
            kw = {} if high and rng.rand() < 0.5 else {'include_highest_eta_order': high}
            r = ctx.call('evaluate_terms', sens_lib.evaluate_terms, lst, eta, eps, deps, **kw)
            if not used:
                ctx.check('sum without the highest order', r is None or not onp.any(r), msg)
                continue
            ctx.close('sum of terms' if high else 'sum without the highest order', r,
                      sum(v for v, _ in vals), 1e-10 * sum(m for _, m in vals), msg)
    ctx.check('consolidation leaves its input', [fields(t) for t in terms] == before, msg)


def product_rule(parts):
    """d/ds of a sum of c * g^(dirs) along the curve, factor by factor; parts
    maps (eps_order, eta_orders) to c, and so does the answer."""
    out = {}

    def add(key, c):
        out[key] = out.get(key, 0.) + c
    for (eps_order, eta_orders), c in parts.items():
        e = list(eta_orders) + [0]
        add((eps_order + 1, tuple(e)), c)
        add((eps_order, tuple([e[0] + 1] + e[1:])), c)
        for i, m in enumerate(eta_orders):
            if m:
                moved = list(e)
                moved[i] -= 1
                moved[i + 1] += 1
                add((eps_order, tuple(moved)), c * m)
    return out


@scenario('C19', 150)
def high_order_terms(ctx):
    """Terms of order up to eight, given by hand with derivatives of g in
    closed form, and their derivatives."""
    rng = ctx.rng
    order = 3 + ctx.index % 6
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    g = Ridge(rng, [n, p], n)
    curve = Curve(rng, n, p)

    def cell(i, j):
        return lambda eta, eps, *v: g.deriv([eta, eps], [(0, w) for w in v[:i]] + [(1, w) for w in v[i:]])[0]
    size = order + 4
    arr = [[cell(i, j) for j in range(size)] for i in range(size)]

    def eta_deriv(k):
        return lambda eta, eps, deps: curve.deriv(eps, deps, k)
    # A partition of the order, with repeated parts likely.
    eta_orders, rest = [0] * order, order
    while rest and rng.rand() < 0.9:
        i = int(rng.randint(1, rest + 1))
        m = int(rng.randint(1, rest // i + 1))
        eta_orders[i - 1] += m
        rest -= i * m
    sig = (rest, tuple(eta_orders))
    pref = float(rng.choice([1., -2., 3., 0.5]))
    ctx.struct('high order {} x{}'.format(sig, pref))
    terms = [build(sig, pref, order, arr, eta_deriv)]
    parts = {sig: pref}
    eps, deps = point(rng, p), rng.uniform(-1, 1, size=p)
    eta = point(rng, n) if rng.rand() < 0.5 else curve.at(eps)
    for step in range(3):
        vals = [term_truth(g, curve, s, c, eta, eps, deps) for s, c in parts.items()]
        tol = 1e-9 * (sum(m for _, m in vals) + 1e-12)
        msg = 'derivative {} of term {} x{} of {}'.format(step, sig, pref, g.describe())
        got = sum(ctx.call('evaluate', t.evaluate, eta, eps, deps) for t in terms)
        ctx.close('term value' if step == 0 else 'derivative of a term', got, sum(v for v, _ in vals), tol, msg)
        for t in terms:
            ctx.check('term order', t.order == order + step and len(t.eta_orders) == order + step, msg)
        if step == 2:
            break
        before = [fields(t) for t in terms]
        new = []
        for t in terms:
            new += ctx.call('differentiate', t.differentiate, eta_deriv(len(t.eval_eta_derivs) + 1))
        ctx.check('differentiating leaves the term', [fields(t) for t in terms] == before, msg)
        parts = product_rule(parts)
        if rng.rand() < 0.5:
            new = ctx.call('consolidate_terms', sens_lib.consolidate_terms, new)
            sigs = [(t.eps_order, tuple(t.eta_orders)) for t in new]
            ctx.check('one term per signature', len(set(sigs)) == len(sigs), msg)
            for t in new:
                want = parts.get((t.eps_order, tuple(t.eta_orders)), 0.)
                ctx.check('consolidation keeps the sum', abs(t.prefactor - want) < 1e-12 * (1 + abs(want)), lambda: '{}: {} has {}'.format(msg, t, t.prefactor))
        terms = new


@scenario('C19', 60)
def implicit(ctx):
    """evaluate_dketa_depsk and differentiate_terms give the derivatives of
    the curve on which g vanishes."""
    rng = ctx.rng
    order = 1 + ctx.index % 4
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    curve = Curve(rng, n, p)
    # A Hessian at an optimum, so symmetric and positive definite.
    H = rng.randn(n, n) * 0.3
    H = onp.dot(H, H.T) + onp.eye(n) * 1.2
    R = rng.randn(n, n)
    w = rng.randn(p)
    ctx.struct('implicit order {} {} {}'.format(order, n, curve.r.describe()))

    def g(eta, eps):
        r = eta - curve.r(eps)
        return np.dot(H, r) * (1. + 0.3 * np.sin(np.dot(w, eps))) + 0.4 * np.dot(R, r ** 2) + 0.1 * np.dot(R.T, np.sin(r) - r)

    arr = sens_lib.generate_two_term_derivative_array(g, order + 1)
    eps, deps = point(rng, p), rng.uniform(-1, 1, size=p)
    eta = curve.at(eps)
    hess = H * (1. + 0.3 * onp.sin(onp.dot(w, eps)))
    keep = hess.copy()
    terms = sens_lib.get_taylor_base_terms(arr)
    cond = onp.linalg.cond(hess)
    if cond > 1e3:
        ctx.abandon('ill-conditioned system')
        return
    for k in range(1, order + 1):
        for c in (1., float(rng.choice([-1., 0.5]))):
            got = ctx.call('evaluate_dketa_depsk', sens_lib.evaluate_dketa_depsk, hess, terms, eta, eps, c * deps)
            want, mag = curve.r.deriv([eps], [(0, c * deps)] * k)
            ctx.close('implicit derivative', got, want, 1e-11 * cond ** 2 * 5 ** k * (1 + mag), 'order {} of {}'.format(k, curve.r.describe()))
        if k < order:
            before = [fields(t) for t in terms]
            new = ctx.call('differentiate_terms', sens_lib.differentiate_terms, hess, terms)
            ctx.check('differentiating leaves the term', [fields(t) for t in terms] == before, '')
            sigs = [(t.eps_order, tuple(t.eta_orders)) for t in new]
            ctx.check('one term per signature', len(set(sigs)) == len(sigs), '{}'.format(sigs))
            terms = new
    ctx.same('arguments unchanged', hess, keep)


@scenario('C19', 80)
def revisited(ctx):
    """The same terms and products evaluated along a history of points: one
    argument changed at a time, the caller's arrays rewritten in place, points
    that nearly coincide, and points returned to."""
    rng = ctx.rng
    order = 1 + ctx.index % 3
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    g = Ridge(rng, [n, p], n)
    curve = Curve(rng, n, p)
    arr = sens_lib.generate_two_term_derivative_array(g, order + 2)
    b = rng.randn(n)
    ctx.struct('revisited order {} {}'.format(order, g.describe()))

    def ederiv(k):
        # Depends on each of the three arguments.
        return lambda eta, eps, deps: curve.deriv(eps, deps, k) * (1. + 0.5 * onp.sin(onp.dot(b, eta)))

    def truth(sig, c, eta, eps, deps):
        dirs = []
        for i, e in enumerate(sig[1]):
            dirs += [(0, ederiv(i + 1)(eta, eps, deps))] * e
        v, mag = g.deriv([eta, eps], dirs + [(1, deps)] * sig[0])
        return c * v, abs(c) * mag
    sigs = signatures(order)
    picks = [sigs[i] for i in rng.permutation(len(sigs))[:1 + rng.randint(3)]]
    prefs = [float(rng.choice([1., -2., 0.5])) for _ in picks]
    terms = [build(s, c, order, arr, ederiv) for s, c in zip(picks, prefs)]
    # A Hessian at an optimum, so symmetric and positive definite.
    hess = rng.randn(n, n) * 0.3
    hess = onp.dot(hess, hess.T) + onp.eye(n) * 1.2
    bufs = [point(rng, n), point(rng, p), rng.uniform(-1, 1, size=p)]
    past, kept = [], []
    for step in range(6):
        k = rng.randint(8)
        if k < 3:
            bufs[k][:] = rng.uniform(-1, 1, size=bufs[k].size)
        elif k == 3:
            bufs = [point(rng, n), point(rng, p), rng.uniform(-1, 1, size=p)]
        elif k < 6 and step:
            j = k - 3 if k < 5 else 0
            bufs[j][rng.randint(bufs[j].size)] += float(rng.choice([1e-4, 1e-6, 1e-7]))
        elif k == 6 and past:
            for u, v in zip(bufs, past[rng.randint(len(past))]):
                u[:] = v
        eta, eps, deps = [u.copy() for u in bufs]
        past.append((eta, eps, deps))
        msg = 'step {} terms {} {} {}'.format(step, picks, prefs, g.describe())
        vals = [truth(s, c, eta, eps, deps) for s, c in zip(picks, prefs)]
        for t, (v, m) in zip(terms, vals):
            r = ctx.call('evaluate', t.evaluate, *bufs)
            ctx.close('term value', r, v, 1e-11 * m, msg)
            kept.append((r, onp.array(r)))
        r = ctx.call('evaluate_terms', sens_lib.evaluate_terms, terms, *bufs)
        ctx.close('sum of terms', r, sum(v for v, _ in vals), 1e-11 * sum(m for _, m in vals), msg)
        kept.append((r, onp.array(r)))
        low = [v for s, v in zip(picks, vals) if s[1][-1] == 0]
        if low:
            r = ctx.call('evaluate_dketa_depsk', sens_lib.evaluate_dketa_depsk, hess, terms, *bufs)
            ctx.close('solution for the highest order', onp.dot(hess, r), -sum(v for v, _ in low), 1e-10 * (sum(m for _, m in low) + 1e-3), msg)
            kept.append((r, onp.array(r)))
        i, j = int(rng.randint(0, order + 1)), int(rng.randint(0, 2))
        r = ctx.call('cell', arr[i][j], bufs[0], bufs[1], *([bufs[0]] * i + [bufs[2]] * j))
        v, m = g.deriv([eta, eps], [(0, eta)] * i + [(1, deps)] * j)
        ctx.close('derivative array', r, v, 1e-11 * m, msg)
        if i or j:
            kept.append((r, onp.array(r)))
        for u, v in zip(bufs, past[-1]):
            ctx.same('arguments unchanged', u, v, msg)
        for r, v in kept:
            ctx.same('answers stay as given', r, v, msg)
