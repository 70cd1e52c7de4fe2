"""C21-C24: minimizers, repeated optimization, preconditioners and the log."""
import io
import sys
import numpy as onp
import scipy.optimize
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib

from core import scenario, prop, is_plain
import gen
import optima
import functors
from props.params import pollute
from props.objectives import Model

# ---------------------------------------------------------------- C21

prop('C21', rule='random parameters of every kind with smooth objectives of known unique minimum, minimized by both minimizers from random starts with no preconditioner and with identity, diagonal, dense, nonsymmetric and Hessian-derived ones, random limits and tolerances, and logs that already hold entries; a case demands convergence only when an independent run of the same optimizer on a twin objective converges well within the limits',
     required=['converged', 'true minimizer', 'gradient is small', 'result refers to the coordinates optimized in', 'optimal value',
               'start unchanged', 'iteration limit', 'loose tolerance', 'tight tolerance', 'log restarted', 'log continued', 'log is faithful',
               'print interval', 'refused', 'stops where the tolerance says'],
     assumptions=['scipy\'s own trust-ncg and BFGS are correct; their convergence on the same problem gates the demand for convergence'])


class MinProblem(object):
    def __init__(self, ctx):
        rng = ctx.rng
        kinds = optima.IN_KINDS if ctx.index % 3 else ['vector', 'subspace', 'array', 'scalar', 'uvn', 'mvn', 'dict']
        self.P = P = optima.Problem(ctx, max_in=5, max_hy=2, kinds=kinds)
        self.tpar = P.spec.build()
        # Increasing in the full objective, so of the same minimum, but tame.
        low = float(P.full(P.optimum(P.hv0), P.hv0))
        tame = lambda vec: np.sqrt(1. + 2. * (P.full(vec, P.hv0) - low)) - 1.
        self.obj = obj_lib.Objective(P.par, lambda: tame(optima.read(P.spec, P.par)))
        self.tobj = obj_lib.Objective(self.tpar, lambda: tame(optima.read(P.spec, self.tpar)))
        self.opt = P.truth(P.hv0, True, False)
        self.n = self.opt.size
        self.H = onp.array(self.tobj.fun_free_hessian(self.opt))
        if P.spec.legal_problem(P.spec.unpack(P.optimum(P.hv0))):
            ctx.fail('machinery', 'illegal optimum')


def rand_precond_dense(ctx, M, x0):
    """A preconditioner and how it is installed."""
    rng = ctx.rng
    n = M.n
    k = rng.randint(5)
    if k == 0:
        return onp.eye(n) * 1.7
    if k == 1:
        return onp.diag(rng.uniform(0.3, 3., size=n))
    if k == 2:
        q = rng.randn(n, n) * 0.4
        return onp.dot(q, q.T) + 0.5 * onp.eye(n)
    if k == 3:
        q, _ = onp.linalg.qr(rng.randn(n, n))
        return onp.dot(q, onp.diag(rng.uniform(0.5, 2., size=n)))
    return None                      # from the Hessian


def reference(M, x0, P, method, options):
    """The same optimizer on the twin objective, without the library's
    optimization layer."""
    A = onp.eye(M.n) if P is None else P
    f = lambda y: float(M.tobj.fun_free(onp.dot(A, y)))
    g = lambda y: onp.dot(A.T, M.tobj.fun_free_grad(onp.dot(A, y)))
    h = lambda y, v: onp.dot(A.T, M.tobj.fun_free_hvp(onp.dot(A, y), onp.dot(A, v)))
    kw = {'hessp': h} if method == 'trust-ncg' else {}
    far = [0.]

    def watched(y):
        far[0] = max(far[0], onp.max(onp.abs(onp.dot(A, y))))
        v = f(y)
        if not onp.isfinite(v):
            far[0] = onp.inf
        return v
    try:
        r = scipy.optimize.minimize(watched, onp.linalg.solve(A, x0), jac=g, method=method,
                                    options=dict(options, disp=False), **kw)
    except Exception:
        return None
    return r if far[0] < 15. and onp.isfinite(r.fun) else None


@scenario('C21', 130)
def minimize(ctx):
    rng = ctx.rng
    M = MinProblem(ctx)
    P, obj = M.P, M.obj
    for run in range(int(rng.randint(1, 4))):
        trust = bool(rng.randint(2))
        x0 = M.opt + rng.uniform(-1, 1, size=M.n) * rng.choice([0.3, 1., 1.])
        precondition = bool(rng.rand() < 0.6)
        if precondition:
            C = rand_precond_dense(ctx, M, x0)
            if C is None and not onp.all(onp.isfinite(M.tobj.fun_free_hessian(x0))):
                C = onp.eye(M.n)
            if C is None:
                opt_lib.set_objective_preconditioner(obj, free_par=onp.array(x0), ev_min=0.05, ev_max=50.)
                C = onp.array(obj.preconditioner)
            else:
                obj.preconditioner = onp.array(C)
        else:
            C = None
        A = onp.eye(M.n) if C is None else C
        g0 = onp.dot(A.T, onp.array(M.tobj.fun_free_grad(x0)))
        kw, mode = {}, rng.randint(5)
        if mode == 0:
            kw['maxiter'] = int(rng.randint(1, 4))
        elif mode == 1:
            kw['maxiter'] = 300
        if trust:
            if mode == 2:
                kw['gtol'] = float(onp.linalg.norm(g0) * 2. + 1e-3)
            elif mode == 3:
                kw['gtol'] = 1e-8
            elif rng.rand() < 0.3:
                kw['gtol'] = 1e-4
        maxiter = kw.get('maxiter', 50 if trust else 500)
        gtol = kw.get('gtol', 1e-6 if trust else 1e-5)
        norm = onp.linalg.norm if trust else (lambda g: onp.max(onp.abs(g)))
        method = 'trust-ncg' if trust else 'BFGS'
        msg = '{} precondition {} {} {} {}'.format(method, precondition, kw, P.family, P.spec.describe())
        opts = {'maxiter': maxiter, 'gtol': gtol}
        ref = reference(M, x0, C, method, opts)
        # Demand convergence only where it is not sensitive to the start.
        near = reference(M, x0 + 1e-6 * rng.randn(M.n), C, method, opts)
        target = onp.linalg.solve(A, M.opt)
        if ref is None or near is None:
            # The optimizer itself leaves the region where numbers are finite.
            ctx.abandon('independent run wanders off')
            continue
        easy = all(r.success and r.nit <= 0.6 * maxiter and onp.max(onp.abs(r.x - target)) < 0.3 for r in (ref, near))
        # The log beforehand.
        disp = bool(rng.rand() < 0.6)
        init_logger = bool(rng.rand() < 0.6)
        fired = []
        obj.logger.callback = lambda lg: fired.append(len(lg.x_array) - 1)
        prefill = rng.randint(0, 4)
        obj.logger.initialize()
        obj.logger.print_every = int(rng.randint(1, 4))
        for i in range(prefill):
            obj.logger.log(1000. + i, onp.full(M.n, 77. + i))
        del fired[:]
        pe = obj.logger.print_every
        if rng.rand() < 0.5:
            pe = kw['print_every'] = int(rng.randint(1, 5))
        if not disp or rng.rand() < 0.5:
            kw['disp'] = disp
        else:
            disp = True
        if not init_logger or rng.rand() < 0.3:
            kw['init_logger'] = init_logger
        pollute(ctx, P.spec, P.par)
        start = onp.array(x0)
        keep_pre = None if obj.preconditioner is None else onp.array(obj.preconditioner)
        ctx.feat(method, 'preconditioned' if precondition else 'plain', 'disp' if disp else 'quiet')
        ctx.struct('{} {} {}'.format(method, precondition, sorted(kw)))
        if trust:
            x, res = ctx.call('minimize_objective_trust_ncg', opt_lib.minimize_objective_trust_ncg, obj, start, precondition, **kw)
        elif precondition or rng.rand() < 0.5:
            x, res = ctx.call('minimize_objective_bfgs', opt_lib.minimize_objective_bfgs, obj, start, precondition=precondition, **kw)
        else:
            x, res = ctx.call('minimize_objective_bfgs', opt_lib.minimize_objective_bfgs, obj, start, **kw)
        ctx.same('start unchanged', start, x0, msg)
        if keep_pre is not None:
            ctx.same('start unchanged', obj.preconditioner, keep_pre, msg)
        x = onp.array(x)
        ctx.check('plain result', is_plain(x) and x.shape == x0.shape and onp.all(onp.isfinite(x)), msg)
        scale = 1 + onp.max(onp.abs(x))
        ctx.close('result refers to the coordinates optimized in', onp.dot(A, res.x), x, 1e-10 * scale, msg)
        fx = float(M.tobj.fun_free(x))
        ctx.close('optimal value', float(onp.asarray(res.fun).reshape(-1)[0]), fx, 1e-9 * (1 + abs(fx)), msg)
        f0 = float(M.tobj.fun_free(x0))
        ctx.check('no worse than the start', fx <= f0 + 1e-9 * (1 + abs(f0)), lambda: '{}: {} from {}'.format(msg, fx, f0))
        ctx.check('iteration limit', res.nit <= maxiter, lambda: '{}: {} iterations'.format(msg, res.nit))
        if mode == 0 and not ref.success and ref.nit == maxiter:
            ctx.feat('stopped by the limit')
        g = onp.dot(A.T, onp.array(M.tobj.fun_free_grad(x)))
        if trust and mode == 2:
            ctx.check('loose tolerance', res.nit <= max(ref.nit, near.nit) + 1, lambda: '{}: {} iterations instead of {}'.format(msg, res.nit, ref.nit))
        if trust and mode == 2 and ref.success and near.success:
            ctx.check('converged', bool(res.success), msg)
            ctx.check('gradient is small', norm(g) <= gtol * (1 + 1e-5) + 1e-11, lambda: '{}: {}'.format(msg, norm(g)))
        elif easy:
            ctx.check('converged', bool(res.success), lambda: '{}: {} after {} (independent run: {})'.format(msg, res.message, res.nit, ref.nit))
            ctx.check('gradient is small', norm(g) <= gtol * (1 + 1e-5) + 1e-11, lambda: '{}: {}'.format(msg, norm(g)))
            if gtol <= 1e-6:
                ctx.monitors['tight tolerance'] += 1
            bound = 2 * onp.linalg.norm(onp.linalg.inv(M.H), 2) * onp.linalg.norm(onp.linalg.inv(A), 2) * max(onp.linalg.norm(g), 1e-9)
            if bound < 0.05:
                ctx.close('true minimizer', x, M.opt, bound + 1e-9 * scale, msg)
            else:
                ctx.abandon('minimum too flat to compare')
        elif mode != 0:
            ctx.abandon('independent run did not converge easily')
        # The log.
        lg = obj.logger
        old = 0 if init_logger else prefill
        ctx.check('log restarted' if init_logger else 'log continued',
                  not any(onp.any(onp.asarray(v) > 70.) for v in lg.x_array[old:]) and
                  all(lg.val_array[i] == 1000. + i for i in range(old)), lambda: msg + ' log of {}'.format(len(lg.x_array)))
        ctx.check('log is faithful', lg.iter == len(lg.x_array) == len(lg.val_array), msg)
        if not disp:
            ctx.check('log is faithful', len(lg.x_array) == old, msg + ' logged while quiet')
            ctx.check('print interval', fired == [], msg)
        else:
            ctx.check('log is faithful', len(lg.x_array) > old, msg + ' nothing logged')
            ctx.close('log is faithful', lg.x_array[old], x0, 1e-10 * (1 + onp.max(onp.abs(x0))), msg)
            seen = min(onp.max(onp.abs(onp.asarray(v) - x)) for v in lg.x_array[old:])
            ctx.check('log is faithful', seen <= 1e-10 * scale, msg + ' the optimum was never logged')
            inds = list(range(old, len(lg.x_array)))
            for i in [inds[j] for j in rng.permutation(len(inds))[:6]]:
                want = float(M.tobj.fun_free(onp.array(lg.x_array[i])))
                if not onp.isfinite(want):
                    continue
                ctx.close('log is faithful', float(onp.asarray(lg.val_array[i]).reshape(-1)[0]), want, 1e-9 * (1 + abs(want)), msg)
            ctx.check('print interval', fired == [i for i in inds if i % pe == 0],
                      lambda: '{}: every {} of {}..{} fired {}'.format(msg, pe, old, len(lg.x_array), fired[:8]))
    obj.preconditioner = None
    start = onp.array(M.opt)
    ctx.refused('refused', lambda: opt_lib.minimize_objective_trust_ncg(obj, start, True), 'no preconditioner')
    ctx.refused('refused', lambda: opt_lib.minimize_objective_bfgs(obj, start, precondition=True), 'no preconditioner')
    ctx.same('start unchanged', start, M.opt, 'refused run')


@scenario('C21', 90)
def stated_tolerance(ctx):
    """A tolerance just below, or just above, the gradient at one of the steps
    of an independent run decides where the run stops, whatever the scale of
    the preconditioner."""
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    par = vb.VectorParam('x', n) if n > 1 or rng.rand() < 0.5 else vb.ScalarParam('x')
    m, c = rng.randn(n), 10. ** rng.uniform(-1, 1, size=n)
    q, _ = onp.linalg.qr(rng.randn(n, n))
    a = onp.dot(q * 10. ** rng.uniform(-1, 1, size=n), q.T)

    def value(lib, x):
        d = x - m
        return lib.sum(c * d ** 4) + 0.5 * lib.dot(d, lib.dot(a, d))
    obj = obj_lib.Objective(par, lambda: value(np, np.reshape(par.get(), (n,))))
    grad = lambda x: 4 * c * (x - m) ** 3 + onp.dot(a, x - m)
    hvp = lambda x, v: 12 * c * (x - m) ** 2 * v + onp.dot(a, v)
    precondition = bool(rng.rand() < 0.8)
    A = onp.eye(n)
    if precondition:
        scale = 10. ** rng.uniform(-1, 4)
        A = scale * [onp.eye(n), onp.diag(rng.uniform(0.3, 3, size=n)), onp.linalg.qr(rng.randn(n, n))[0],
                     onp.eye(n) + 0.3 * rng.randn(n, n) / onp.sqrt(n)][rng.randint(4)]
        if onp.linalg.cond(A) > 50:
            A = scale * onp.eye(n)
        obj.preconditioner = onp.array(A)
        ctx.feat('scale 1e{}'.format(int(onp.floor(onp.log10(scale)))))
    x0 = m + rng.randn(n) * rng.choice([0.3, 1., 3.])

    def run(gtol, start):
        path = []
        r = scipy.optimize.minimize(lambda y: float(value(onp, onp.dot(A, y))), onp.linalg.solve(A, start), method='trust-ncg',
                                    jac=lambda y: onp.dot(A.T, grad(onp.dot(A, y))),
                                    hessp=lambda y, v: onp.dot(A.T, hvp(onp.dot(A, y), onp.dot(A, v))),
                                    callback=lambda y: path.append(onp.array(y)), options={'maxiter': 60, 'gtol': gtol})
        return r, [float(onp.linalg.norm(onp.dot(A.T, grad(onp.dot(A, y))))) for y in path]
    size = onp.linalg.norm(A, 2)
    full, norms = run(1e-8 * size, x0)
    norms = [float(onp.linalg.norm(onp.dot(A.T, grad(x0))))] + norms
    # Places where the gradient falls by enough for the tolerance to decide.
    best = onp.inf
    spots = []
    for k, g in enumerate(norms[:-1]):
        if g > 1e-7 * size and norms[k + 1] < 0.5 * g and g < 0.9 * best:
            spots.append(k)
        best = min(best, g)
    if not spots:
        ctx.abandon('gradient does not fall')
        return
    for _ in range(2):
        k = spots[rng.randint(len(spots))]
        below = bool(rng.randint(2))
        # Just below: the run must go on from there.  Just above: it must stop there.
        gtol = norms[k] * (0.9 if below else 1.05)
        if not below and k and min(norms[:k]) < 1.1 * gtol:
            continue
        ref, near = run(gtol, x0)[0], run(gtol, x0 + 1e-9 * rng.randn(n))[0]
        if not (ref.success and near.success and ref.nit == near.nit):
            ctx.abandon('independent runs differ')
            continue
        msg = 'gtol {} preconditioner of size {:.3g}: gradients {}'.format(gtol, size, ['{:.3g}'.format(g) for g in norms])
        x, res = ctx.call('minimize_objective_trust_ncg', opt_lib.minimize_objective_trust_ncg, obj, onp.array(x0), precondition,
                          gtol=gtol, maxiter=60, disp=bool(rng.randint(2)))
        g = onp.linalg.norm(onp.dot(A.T, grad(onp.array(x))))
        ctx.check('converged', bool(res.success), msg)
        ctx.check('gradient is small', g <= gtol * (1 + 1e-6), lambda: '{}: {}'.format(msg, g))
        ctx.check('stops where the tolerance says', res.nit == ref.nit, lambda: '{}: {} steps instead of {}'.format(msg, res.nit, ref.nit))
        ctx.close('stops where the tolerance says', onp.array(x), onp.dot(A, ref.x), 1e-6 * (1 + onp.max(onp.abs(x))), msg)
        ctx.struct('{} {} {}'.format(precondition, 'below' if below else 'above', n))


# ---------------------------------------------------------------- C22

prop('C22', rule='scripted optimizers whose steps are chosen so that a random criterion (or none, or several, or an exact tie) is met at a random step; the recorded call log is checked offline against the stopping rule recomputed from an independent objective',
     required=['optimizer called from the previous result', 'never called after convergence', 'called until convergence', 'initial optimizer',
               'returned point', 'returned result', 'x flag', 'f flag', 'gradient flag', 'overall flag', 'intermediate results', 'exact tie'])


class Fake(object):
    """An optimizer result, compared by identity."""

    def __init__(self, n):
        self.n = n


@scenario('C22', 500)
def repeated(ctx):
    rng = ctx.rng
    n = int(rng.randint(1, 4))
    exact = bool(rng.randint(3) == 0)
    par = vb.VectorParam('x', n)
    if exact:
        # Dyadic numbers throughout, so ties are exact.
        lin = rng.randint(-3, 4, size=n) / 4.
        quad = rng.randint(0, 3, size=n) / 2.
    else:
        lin, quad = rng.randn(n) * 0.5, rng.uniform(0, 1.5, size=n)
    if rng.rand() < 0.5:
        lin = lin * 0
    F = lambda x: float(onp.sum(lin * x) + onp.sum(quad * x ** 2))
    G = lambda x: float(onp.sum(onp.abs(lin + 2 * quad * x)))
    obj = obj_lib.Objective(par, lambda: np.sum(lin * par.get()) + np.sum(quad * par.get() ** 2))
    max_iter = int(rng.randint(1, 9))
    # The script: shrinking, wandering or constant steps.
    style = ['shrink', 'wander', 'mixed', 'flat'][rng.randint(4)]
    step = float(rng.choice([1., 0.5, 2.]))
    points = [rng.randint(-8, 9, size=n) / 4. if exact else rng.randn(n)]
    for i in range(max_iter + 4):
        if exact:
            d = rng.randint(-2, 3, size=n) / 4. * step
        else:
            d = rng.randn(n) * step
        if style == 'shrink':
            step = step / (2. if exact else rng.uniform(1.5, 6.))
        elif style == 'mixed' and rng.rand() < 0.4:
            step = step / 4.
        elif style == 'flat' and rng.rand() < 0.3:
            d = d * 0
        if rng.rand() < 0.25 and not exact:
            # Move to the other side of a valley: same value, different point.
            d = -2 * points[-1] if not onp.any(lin) else d
        points.append(points[-1] + d)
    tols = {}
    for name in ('xtol', 'ftol', 'gtol'):
        r = rng.rand()
        if r < 0.6:
            tols[name] = float(2. ** -rng.randint(0, 6)) if exact else float(10. ** rng.uniform(-3, 0.5))
        elif r < 0.8:
            tols[name] = 0.
    tol = lambda name: tols.get(name, 1e-8)
    calls, init_calls, results = [], [], []
    offset = [0]

    def optimizer(x):
        calls.append(onp.array(x))
        r = Fake(len(results))
        results.append(r)
        out = points[offset[0] + len(calls)]
        return (onp.array(out), r)

    def initial(x):
        init_calls.append((onp.array(x), len(calls)))
        r = Fake(len(results))
        results.append(r)
        return onp.array(points[1]), r

    use_init = bool(rng.rand() < 0.4)
    keep = bool(rng.rand() < 0.6)
    kw = dict(tols)
    if use_init:
        kw['initial_optimization_fun'] = initial
        offset[0] = 1
    if max_iter < 8 or rng.rand() < 0.8:
        kw['max_iter'] = max_iter
    else:
        max_iter = 100
        # The script is finite: stop at its end.
        while len(points) < 110:
            points.append(points[-1])
    if keep or rng.rand() < 0.5:
        kw['keep_intermediate_optimizations'] = keep
    if rng.rand() < 0.2:
        kw['disp'] = True
    ctx.struct('n {} {} {} init {} keep {} {}'.format(n, 'exact' if exact else 'real', style, use_init, keep, sorted(tols)))
    # The stopping rule, from the script alone.
    first = offset[0]
    want_n, flags, gap, tie = 0, None, onp.inf, False
    while True:
        a, b = points[first + want_n], points[first + want_n + 1]
        want_n += 1
        m = [(onp.sum(onp.abs(b - a)), tol('xtol')), (abs(F(b) - F(a)), tol('ftol')), (G(b), tol('gtol'))]
        flags = [bool(u < v) for u, v in m]
        for u, v in m:
            if exact and u == v:
                tie = True
            else:
                gap = min(gap, abs(u - v) / max(u, v, 1e-12))
                if v < 1e-6 and u < 1e-12 and u > 0:
                    gap = 0.
                if v == 0. and 0 < u < 1e-12:
                    gap = 0.
        if any(flags) or want_n == max_iter:
            break
    if not exact and gap < 1e-6:
        ctx.abandon('criterion undecidable at rounding')
        return
    init_x = onp.array(points[0])
    out = ctx.call('repeatedly_optimize', opt_lib.repeatedly_optimize, obj, optimizer, init_x, **kw)
    new_x, conv, xc, fc, gc, last, kept = out
    msg = '{} tol {} max_iter {} style {} flags {} at step {}'.format(
        'exact' if exact else 'real', tols, max_iter, style, flags, want_n)
    for c in calls:
        ctx.ev('optimizer called', c)
    if use_init:
        ctx.check('initial optimizer', len(init_calls) == 1 and init_calls[0][1] == 0, lambda: msg + ' initial calls {}'.format(len(init_calls)))
        ctx.same('initial optimizer', init_calls[0][0], points[0], msg)
    for i, c in enumerate(calls):
        ctx.same('optimizer called from the previous result', c, points[first + i], msg)
    ctx.check('never called after convergence', len(calls) <= want_n, lambda: '{}: {} calls'.format(msg, len(calls)))
    ctx.check('called until convergence', len(calls) >= want_n, lambda: '{}: {} calls'.format(msg, len(calls)))
    ctx.same('returned point', new_x, points[first + want_n], msg)
    ctx.check('returned result', last is results[-1], msg)
    ctx.check('x flag', bool(xc) == flags[0], lambda: '{}: {}'.format(msg, xc))
    ctx.check('f flag', bool(fc) == flags[1], lambda: '{}: {}'.format(msg, fc))
    ctx.check('gradient flag', bool(gc) == flags[2], lambda: '{}: {}'.format(msg, gc))
    ctx.check('overall flag', bool(conv) == any(flags), lambda: '{}: {}'.format(msg, conv))
    if tie:
        ctx.monitors['exact tie'] += 1
    if keep:
        ctx.check('intermediate results', len(kept) == len(results) and all(a is b for a, b in zip(kept, results)),
                  lambda: '{}: {} kept of {}'.format(msg, len(kept), len(results)))
    else:
        ctx.check('intermediate results', len(kept) == 0, msg)
    ctx.feat('stopped at the limit' if not any(flags) else 'stopped by ' + '+'.join(k for k, f in zip('xfg', flags) if f))
    if any(flags) and want_n == max_iter:
        ctx.feat('converged at the last iteration')


@scenario('C22', 60)
def undefined_values(ctx):
    """The optimizer wanders out of the domain of the objective: differences
    with an undefined or infinite value are not below any tolerance, so they
    are no convergence."""
    rng = ctx.rng
    n = int(rng.randint(1, 3))
    par = vb.VectorParam('x', n)
    nan_at_neg = bool(rng.randint(2))

    def f(x):
        x = x[0]
        if nan_at_neg:
            return np.log(x) if x >= 0 else x * onp.nan
        return 2 * x if x > 0 else (x * 0 + onp.inf if x == 0 else x * onp.nan)
    obj = obj_lib.Objective(par, lambda: f(par.get()))
    good = lambda: float(rng.uniform(1., 4.))
    points = []
    for _ in range(int(rng.randint(3, 9))):
        p = onp.ones(n)
        p[0] = good() if rng.rand() < 0.5 else float(rng.choice([-1., -2., 0. if not nan_at_neg else -3.]))
        points.append(p)
    # The end, where it does converge.
    last = onp.ones(n)
    last[0] = good()
    points += [last, last + 0., last + 0.]
    max_iter = int(rng.randint(1, len(points)))
    tols = {'xtol': 1e-12, 'ftol': 1e-12, 'gtol': 1e-12}
    with onp.errstate(all='ignore'):
        vals = [float(f(p)) for p in points]
        grads = [onp.array(obj.fun_free_grad(p)) for p in points]
        want, flags = 0, None
        while want < max_iter:
            a, b = points[want], points[want + 1]
            flags = [bool(onp.sum(onp.abs(b - a)) < 1e-12), bool(abs(vals[want + 1] - vals[want]) < 1e-12),
                     bool(onp.sum(onp.abs(grads[want + 1])) < 1e-12)]
            want += 1
            if any(flags):
                break
        ctx.struct('undefined {} {}'.format(n, nan_at_neg))
        ctx.feat('undefined values', 'undefined to the end' if not onp.isfinite(vals[want]) else 'defined at the end')
        calls = []

        def optimizer(x):
            calls.append(onp.array(x))
            return onp.array(points[len(calls)]), len(calls)
        out = ctx.call('repeatedly_optimize', opt_lib.repeatedly_optimize, obj, optimizer, onp.array(points[0]),
                       max_iter=max_iter, disp=bool(rng.rand() < 0.2), **tols)
    new_x, conv, xc, fc, gc, last_r, kept = out
    msg = 'values {} max_iter {} flags {} at step {}'.format(vals, max_iter, flags, want)
    ctx.check('called until convergence', len(calls) >= want, lambda: '{}: {} calls'.format(msg, len(calls)))
    ctx.check('never called after convergence', len(calls) <= want, lambda: '{}: {} calls'.format(msg, len(calls)))
    ctx.same('returned point', new_x, points[want], msg)
    ctx.check('returned result', last_r == want, msg)
    ctx.check('x flag', bool(xc) == flags[0], msg)
    ctx.check('f flag', bool(fc) == flags[1], msg)
    ctx.check('gradient flag', bool(gc) == flags[2], msg)
    ctx.check('overall flag', bool(conv) == any(flags), msg)


class Wandered(Exception):
    pass


@scenario('C22', 40)
def real_optimizers(ctx):
    """With the library's own minimizers as the optimizers."""
    rng = ctx.rng
    M = MinProblem(ctx)
    calls, results = [], []
    bfgs = bool(rng.randint(2))
    fn = opt_lib.minimize_objective_bfgs if bfgs else \
        lambda o, x, **kw: opt_lib.minimize_objective_trust_ncg(o, x, False, **kw)
    per = int(rng.randint(1, 6))

    def optimizer(x):
        calls.append(onp.array(x))
        try:
            y, r = fn(M.obj, x, maxiter=per, disp=False)
        except Exception:
            # Scipy's minimizers may step to where the objective overflows:
            # the twin objective tells.
            ref = reference(M, onp.array(x), None, 'BFGS' if bfgs else 'trust-ncg', {'maxiter': per, 'gtol': 1e-5 if bfgs else 1e-6})
            if ref is None:
                raise Wandered()
            raise
        results.append((onp.array(y), r))
        return y, r

    x0 = M.opt + rng.uniform(-1, 1, size=M.n)
    tols = {'xtol': float(10. ** rng.uniform(-6, -2)), 'ftol': float(10. ** rng.uniform(-8, -3)),
            'gtol': float(10. ** rng.uniform(-6, -2))}
    max_iter = int(rng.randint(1, 12))
    start = onp.array(x0)
    ctx.struct('real {} {}'.format(per, M.P.spec.describe()))
    try:
        out = ctx.call('repeatedly_optimize', opt_lib.repeatedly_optimize, M.obj, optimizer, start, max_iter=max_iter,
                       keep_intermediate_optimizations=True, **tols)
    except Wandered:
        ctx.abandon('the minimizer left the domain')
        return
    new_x, conv, xc, fc, gc, last, kept = out
    msg = 'real optimizer {} {}'.format(tols, M.P.spec.describe())
    ctx.same('start unchanged', start, x0, msg)
    seq = [x0] + [y for y, _ in results]
    for c, p in zip(calls, seq):
        ctx.same('optimizer called from the previous result', c, p, msg)
    ctx.same('returned point', new_x, seq[-1], msg)
    ctx.check('returned result', last is results[-1][1] and len(kept) == len(results) and
              all(k is r for k, (_, r) in zip(kept, results)), msg)
    for i in range(1, len(seq)):
        a, b = seq[i - 1], seq[i]
        m = [onp.sum(onp.abs(b - a)), abs(float(M.tobj.fun_free(b)) - float(M.tobj.fun_free(a))),
             onp.sum(onp.abs(M.tobj.fun_free_grad(b)))]
        t = [tols['xtol'], tols['ftol'], tols['gtol']]
        if any(abs(u - v) < 1e-9 for u, v in zip(m, t)):
            ctx.abandon('criterion undecidable at rounding')
            return
        fl = [bool(u < v) for u, v in zip(m, t)]
        if i < len(seq) - 1:
            ctx.check('never called after convergence', not any(fl), lambda: '{} step {} {}'.format(msg, i, fl))
        else:
            ctx.check('x flag', bool(xc) == fl[0], msg)
            ctx.check('f flag', bool(fc) == fl[1], msg)
            ctx.check('gradient flag', bool(gc) == fl[2], msg)
            ctx.check('overall flag', bool(conv) == any(fl), msg)
            ctx.check('called until convergence', any(fl) or len(calls) == max_iter, msg)


# ---------------------------------------------------------------- C23

prop('C23', rule='symmetric, nonsymmetric, indefinite and degenerate matrices built from chosen eigenvalues with limits below, inside, above and on the spectrum; the results are compared with those built from the same eigenvectors and clamped eigenvalues',
     required=['corrected matrix', 'inverse root squares to the inverse', 'symmetric', 'argument unchanged', 'installed', 'returned Hessian',
               'given Hessian used', 'Hessian at the given point', 'refused'])


def rand_matrix(ctx, n):
    """(matrix, Q, eigenvalues of its symmetric part)."""
    rng = ctx.rng
    q, _ = onp.linalg.qr(rng.randn(n, n))
    style = rng.randint(4)
    if style == 0:
        lam = rng.uniform(0.1, 5., size=n)
    elif style == 1:
        lam = rng.randn(n) * 3
    elif style == 2:
        lam = rng.choice([0., 1., 2., -1.], size=n)
    else:
        lam = 10. ** rng.uniform(-3, 3, size=n) * rng.choice([1., 1., -1.], size=n)
    ctx.feat(['positive', 'indefinite', 'degenerate', 'wide'][style])
    m = onp.dot(q * lam, q.T)
    if rng.rand() < 0.5:
        a = rng.randn(n, n)
        m = m + (a - a.T) * float(rng.choice([0.5, 3.]))
        ctx.feat('nonsymmetric')
    return m, q, lam


def rand_limits(ctx, lam):
    rng = ctx.rng
    kw = {}
    pos = onp.all(lam > 0)
    if not pos or rng.rand() < 0.6:
        kw['ev_min'] = float(rng.choice([0.01, 0.5, 1., 2., 20.]))
    if rng.rand() < 0.6:
        lo = kw.get('ev_min', 0.)
        kw['ev_max'] = float(lo + rng.choice([0.3, 1., 5., 100.])) if lo else float(rng.choice([0.2, 1., 3., 100.]))
    return kw


def check_root(ctx, root, corrected, m, q, lam, kw, msg):
    want = onp.clip(lam, kw.get('ev_min', -onp.inf), kw.get('ev_max', onp.inf))
    top, low = onp.max(onp.abs(lam)), onp.min(want)
    noise = 1e-13 * len(lam) * max(top, onp.max(onp.abs(m)), onp.max(want))
    W = onp.dot(q * want, q.T)
    R = onp.dot(q / onp.sqrt(want), q.T)
    ctx.check('symmetric', is_plain(root) and is_plain(corrected), msg)
    ctx.close('corrected matrix', corrected, W, 20 * noise, msg)
    rt = 20 * noise / low ** 1.5
    rmax = onp.max(onp.abs(R)) + rt
    ctx.close('symmetric', root, onp.array(root).T, 1e-12 * rmax, msg)
    ctx.close('inverse root', root, R, rt + 1e-11 * rmax, msg)
    inv = onp.dot(q / want, q.T)
    ctx.close('inverse root squares to the inverse', onp.dot(root, root), inv, 2 * rt * rmax * len(lam) + 1e-11 / low, msg)


@scenario('C23', 500)
def root(ctx):
    rng = ctx.rng
    n = int(rng.randint(1, 7))
    m, q, lam = rand_matrix(ctx, n)
    kw = rand_limits(ctx, lam)
    if 'ev_min' not in kw and onp.min(lam) < 1e-3:
        kw['ev_min'] = 0.1
        if kw.get('ev_max', 1.) < 0.1:
            del kw['ev_max']
    ctx.struct('{} {}'.format(n, sorted(kw)))
    m = gen.layout(rng, m) if rng.rand() < 0.3 else m
    keep = onp.array(m)
    args = ()
    call = dict(kw)
    if rng.rand() < 0.2 and 'ev_min' in call:
        args = (call.pop('ev_min'),)
    r, c = ctx.call('get_sym_matrix_inv_sqrt', opt_lib.get_sym_matrix_inv_sqrt, m, *args, **call)
    ctx.same('argument unchanged', m, keep)
    check_root(ctx, r, c, keep, q, lam, kw, 'limits {} eigenvalues {}'.format(kw, onp.sort(lam)))


@scenario('C23', 80)
def to_zero(ctx):
    """A limit of zero is a limit: the corrected matrix is the nearest
    nonnegative definite (or, for the upper limit, nonpositive definite) one.
    It has no inverse root, so only the corrected matrix is judged."""
    rng = ctx.rng
    n = int(rng.randint(1, 7))
    m, q, lam = rand_matrix(ctx, n)
    zero = [0., 0, -0., onp.float64(0), onp.array(0.)][rng.randint(5)]
    kw = {'ev_min': zero}
    k = rng.randint(4)
    if k == 0:
        kw = {'ev_max': zero}
    elif k == 1:
        kw['ev_max'] = float(rng.choice([0.3, 1., 5., 100.]))
    elif k == 2:
        # Below any eigenvalue's reach.
        kw = {'ev_min': -float(rng.choice([0.5, 2.]))}
    ctx.struct('to zero {} {}'.format(n, k))
    keep = onp.array(m)
    with onp.errstate(all='ignore'):
        r, c = ctx.call('get_sym_matrix_inv_sqrt', opt_lib.get_sym_matrix_inv_sqrt, m, **kw)
    ctx.same('argument unchanged', m, keep)
    want = onp.clip(lam, float(kw.get('ev_min', -onp.inf)), float(kw.get('ev_max', onp.inf)))
    noise = 1e-13 * n * max(onp.max(onp.abs(lam)), onp.max(onp.abs(m)), onp.max(onp.abs(want)))
    ctx.close('corrected matrix', c, onp.dot(q * want, q.T), 20 * noise, 'limits {} eigenvalues {}'.format(kw, onp.sort(lam)))


@scenario('C23', 120)
def preconditioner(ctx):
    rng = ctx.rng
    M = Model(ctx, max_free=6)
    n = M.spec.free_size
    obj = obj_lib.Objective(M.par, M.user_fun())
    twin = obj_lib.Objective(M.twin, lambda: M.eval_at(M.twin, (), {}))
    ctx.struct('preconditioner ' + M.spec.describe())
    old = None
    if rng.rand() < 0.5:
        old = rng.randn(n, n)
        obj.preconditioner = old
    ctx.refused('refused', lambda: opt_lib.set_objective_preconditioner(obj), 'neither Hessian nor point')
    ctx.refused('refused', lambda: opt_lib.set_objective_preconditioner(obj, ev_min=1., ev_max=2.), 'neither Hessian nor point')
    ctx.check('refused', obj.preconditioner is old, 'preconditioner changed by a refused call')
    for _ in range(int(rng.randint(1, 3))):
        f = onp.clip(M.f0 + 0.5 * rng.randn(n), -2, 2)
        m, q, lam = rand_matrix(ctx, n)
        kw = rand_limits(ctx, lam)
        how = rng.randint(3)
        ctx.feat(['given Hessian', 'Hessian at the point', 'both'][how])
        free_arg, hess_arg = onp.array(f), onp.array(m)
        call = dict(kw)
        if how == 1:
            m = onp.array(twin.fun_free_hessian(f))
            lam, q = onp.linalg.eigh(0.5 * (m + m.T))
            call['ev_min'] = kw['ev_min'] = float(max(0.05 * onp.max(onp.abs(lam)), 1e-3))
            kw.pop('ev_max', None)
            call.pop('ev_max', None)
            if rng.rand() < 0.5:
                call['ev_max'] = kw['ev_max'] = float(kw['ev_min'] * 3)
            if rng.rand() < 0.5:
                call['hessian'] = None
            call['free_par'] = free_arg
        elif how == 0:
            call['hessian'] = hess_arg
        else:
            call['hessian'], call['free_par'] = hess_arg, free_arg
        if how != 1 and 'ev_min' not in kw and onp.min(lam) < 1e-3:
            call['ev_min'] = kw['ev_min'] = 0.1
            if kw.get('ev_max', 1.) < 0.1:
                del kw['ev_max'], call['ev_max']
        pollute(ctx, M.spec, M.par)
        h, r, c = ctx.call('set_objective_preconditioner', opt_lib.set_objective_preconditioner, obj, **call)
        msg = '{} {} {}'.format(how, kw, M.spec.describe())
        ctx.same('argument unchanged', free_arg, f)
        if how != 1:
            ctx.same('argument unchanged', hess_arg, m)
            ctx.same('returned Hessian', h, m, msg)
            ctx.monitors['given Hessian used'] += 1
        else:
            ctx.close('returned Hessian', h, m, 1e-9 * (1 + onp.max(onp.abs(m))), msg)
            ctx.monitors['Hessian at the given point'] += 1
        if how == 1:
            # Judge the root against the Hessian actually returned.
            m = onp.array(h)
            lam, q = onp.linalg.eigh(0.5 * (m + m.T))
        check_root(ctx, r, c, m, q, lam, kw, msg)
        ctx.same('installed', obj.preconditioner, r, msg)
        y = rng.randn(n)
        ctx.close('installed', obj.get_conditioned_x(y), onp.dot(r, y), 1e-10 * (1 + onp.max(onp.abs(r)) * onp.max(onp.abs(y)) * n), msg)


# ---------------------------------------------------------------- C24

prop('C24', rule='random sequences of verbose and quiet evaluations, conditioned or not, direct logging, re-initialization and reuse of the caller\'s array, with random print intervals and callbacks; the log is compared with the recorder\'s own after every step',
     required=['value recorded', 'point recorded', 'counter', 'latest', 'nothing recorded when quiet', 'print interval', 'message printed', 'emptied'])


def log_value(rng):
    """An evaluation may well be infinite or undefined: it is logged all the
    same."""
    if rng.rand() < 0.15:
        return float(rng.choice([onp.inf, -onp.inf, onp.nan, 0., 1e300]))
    return float(rng.randn())


def same_log(ctx, lg, mine, msg):
    ctx.check('counter', lg.iter == len(mine) and len(lg.x_array) == len(mine) and len(lg.val_array) == len(mine),
              lambda: '{}: iter {} x {} values {} of {}'.format(msg, lg.iter, len(lg.x_array), len(lg.val_array), len(mine)))
    for i, (v, x) in enumerate(mine):
        ctx.same('point recorded', lg.x_array[i], x, msg + ' entry {}'.format(i))
        ctx.same('value recorded', lg.val_array[i], v, msg + ' entry {}'.format(i))
    if mine:
        ctx.same('latest', lg.x, mine[-1][1], msg)
        ctx.same('latest', lg.value, mine[-1][0], msg)


@scenario('C24', 200)
def history(ctx):
    rng = ctx.rng
    M = Model(ctx, max_free=4)
    n = M.spec.free_size
    obj = obj_lib.Objective(M.par, M.user_fun())
    if rng.rand() < 0.7:
        obj.preconditioner = rng.randn(n, n) * 0.3 + onp.eye(n)
    lg = obj.logger
    mine, fired, want_fired = [], [], []

    def callback(logger):
        ctx.check('callback sees the latest', logger is lg, 'callback argument')
        fired.append((len(logger.x_array), float(onp.asarray(logger.value).reshape(-1)[0]), onp.array(logger.x)))

    pe = int(rng.choice([1, 2, 3, 5]))
    if pe > 1 or rng.rand() < 0.5:
        lg.print_every = pe
    use_callback = bool(rng.rand() < 0.7)
    if use_callback:
        lg.callback = callback
    buf = onp.zeros(n)
    steps = int(rng.randint(3, 16))
    trace = []
    for step in range(steps):
        op = ['verbose', 'verbose', 'quiet', 'cond', 'cond quiet', 'gradient', 'log', 'initialize', 'verbose'][rng.randint(9)]
        if op.startswith('cond') and obj.preconditioner is None:
            op = 'verbose'
        trace.append(op)
        x = onp.clip(M.f0 + 0.7 * rng.randn(n), -2, 2)
        reuse = bool(rng.randint(2))
        if reuse:
            buf[:] = x
            arg = buf
        else:
            arg = onp.array(x)
        memory = arg
        if rng.rand() < 0.25:
            # A view of the caller's memory which does not allow writing.
            arg = arg.view()
            arg.flags.writeable = False
        before = len(mine)
        args, kw = ((), {}) if rng.rand() < 0.5 else M.rand_args()
        old_out, cap = sys.stdout, io.StringIO()
        sys.stdout = cap
        try:
            if op == 'verbose':
                v = ctx.call('fun_free', obj.fun_free, arg, *args, verbose=True, **kw)
                mine.append((onp.array(v), onp.array(x)))
            elif op == 'quiet':
                v = ctx.call('fun_free', obj.fun_free, arg, *args, **(dict(kw, verbose=False) if rng.randint(2) else kw))
            elif op == 'cond':
                P = obj.preconditioner
                v = ctx.call('fun_free_cond', obj.fun_free_cond, arg, *args, verbose=True, **kw)
                mine.append((onp.array(v), onp.array(lg.x_array[-1]) if lg.x_array else None))
            elif op == 'cond quiet':
                v = ctx.call('fun_free_cond', obj.fun_free_cond, arg, *args, **kw)
            elif op == 'gradient':
                ctx.call('fun_free_grad', obj.fun_free_grad, arg, *args, **kw)
            elif op == 'log':
                v = log_value(rng)
                ctx.call('log', lg.log, v, arg)
                mine.append((onp.array(v), onp.array(x)))
            else:
                ctx.call('initialize', lg.initialize)
                mine = []
                before = 0
        finally:
            sys.stdout = old_out
        msg = 'steps {} {}'.format(trace, M.spec.describe())
        if op == 'cond':
            ctx.check('counter', len(lg.x_array) == len(mine), msg)
            ctx.close('point recorded', lg.x_array[-1], onp.dot(obj.preconditioner, x),
                      1e-11 * n * (1 + onp.max(onp.abs(obj.preconditioner)) * onp.max(onp.abs(x))), msg)
        M.seen = []
        fires = len(mine) > before and (len(mine) - 1) % pe == 0
        if use_callback:
            if fires:
                want_fired.append(len(mine))
            ctx.check('print interval', len(fired) == len(want_fired) and
                      [f[0] for f in fired] == want_fired, lambda: '{}: every {} fired {} want {}'.format(msg, pe, [f[0] for f in fired], want_fired))
            if fires:
                ctx.same('callback sees the latest', fired[-1][2], mine[-1][1], msg)
                ctx.same('callback sees the latest', fired[-1][1], float(mine[-1][0]), msg)
        else:
            ctx.check('message printed', bool(cap.getvalue()) == fires, lambda: '{}: every {} at {} printed {!r}'.format(msg, pe, len(mine), cap.getvalue()))
        if op == 'initialize':
            ctx.check('emptied', lg.iter == 0 and len(lg.x_array) == 0 and len(lg.val_array) == 0 and lg.x is None and lg.value is None, msg)
        if len(mine) == before:
            ctx.monitors['nothing recorded when quiet'] += 1
        # The caller reuses its memory.
        memory[:] = rng.randn(n)
        if rng.rand() < 0.5 or step == steps - 1:
            same_log(ctx, lg, mine, msg)
    same_log(ctx, lg, mine, 'at the end')


@scenario('C24', 60)
def two_logs(ctx):
    """Loggers are independent of one another."""
    rng = ctx.rng
    lgs = [obj_lib.Logger(print_every=int(rng.randint(1, 4))) if rng.randint(2) else obj_lib.Logger() for _ in range(2)]
    mine = [[], []]
    fired = [[], []]
    for j in (0, 1):
        lgs[j].callback = (lambda k: lambda lg: fired[k].append(len(lg.x_array)))(j)
    want = [[], []]
    ctx.struct('two logs {}'.format([l.print_every for l in lgs]))
    for _ in range(int(rng.randint(2, 14))):
        j = rng.randint(2)
        if rng.rand() < 0.1:
            lgs[j].initialize()
            mine[j] = []
            continue
        x = rng.randn(int(rng.randint(1, 4))) if not mine[j] else rng.randn(mine[j][0][1].size)
        v = log_value(rng)
        ctx.call('log', lgs[j].log, v, x)
        mine[j].append((onp.array(v), onp.array(x)))
        if (len(mine[j]) - 1) % lgs[j].print_every == 0:
            want[j].append(len(mine[j]))
        x[:] = 5.
    for j in (0, 1):
        same_log(ctx, lgs[j], mine[j], 'logger {}'.format(j))
        ctx.check('print interval', fired[j] == want[j], '{} {}'.format(fired[j], want[j]))


@scenario('C24', 6)
def long_run(ctx):
    """A long optimization: the history is kept in full however long it is."""
    rng = ctx.rng
    n = 500 * (1 + ctx.index % 6) + int(rng.randint(50, 450))
    pe = int(rng.choice([1, 3, 10, 100, 1000]))
    fired = []
    lg = obj_lib.Logger(print_every=pe)
    lg.callback = lambda l: fired.append(l.iter)
    ctx.struct('long run of {} hundred, every {}'.format(n // 100, pe))
    xs, vs = rng.randn(n, 2), rng.randn(n)
    x = onp.zeros(2)
    mine = []
    for i in range(n):
        x[:] = xs[i]
        lg.log(vs[i], x)
        mine.append((onp.array(vs[i]), xs[i]))
    ctx.ev('logged', n, lg.iter, len(lg.x_array))
    same_log(ctx, lg, mine, 'after {} evaluations'.format(n))
    ctx.check('print interval', fired == list(range(0, n, pe)), lambda: 'every {}: {} firings'.format(pe, len(fired)))


@scenario('C24', 60)
def adjusted(ctx):
    """The interval and the callback are changed, and consumed history is
    dropped, while logging goes on: the count is of evaluations logged."""
    rng = ctx.rng
    lg = obj_lib.Logger(print_every=int(rng.randint(1, 5)))
    ctx.struct('adjusted log')
    fired, want, count, kept, trace = [], [], 0, [], []
    cbs = [(lambda k: lambda l: fired.append((k, l.iter)))(k) for k in (0, 1)]
    drop = rng.randint(3)

    def dropping(l):
        fired.append((2, l.iter))
        del l.x_array[:]
        del l.val_array[:]
    cbs.append(dropping)
    cur = None
    for step in range(int(rng.randint(5, 20))):
        k = rng.randint(8)
        if k == 0:
            lg.print_every = int(rng.randint(1, 5))
        elif k == 1:
            cur = [None, 0, 1, 2 if drop else 1][rng.randint(4)]
            lg.callback = None if cur is None else cbs[cur]
        elif k == 2 and drop == 2:
            lg.x_array, lg.val_array = [], []
            kept = []
        elif k == 3 and rng.rand() < 0.4:
            ctx.call('initialize', lg.initialize)
            kept, count = [], 0
        trace.append((k, lg.print_every, cur))
        x, v = rng.randn(2), log_value(rng)
        old_out, cap = sys.stdout, io.StringIO()
        sys.stdout = cap
        try:
            ctx.call('log', lg.log, v, x)
        finally:
            sys.stdout = old_out
        due = count % lg.print_every == 0
        kept.append((onp.array(v), onp.array(x)))
        if due and cur is not None:
            want.append((cur, count))
            if cur == 2:
                kept = []
        count += 1
        x[:] = 0.
        msg = lambda: 'step {} {} {} {}'.format(trace, fired, want, cap.getvalue())
        ctx.check('print interval', fired == want, msg)
        ctx.check('message printed', bool(cap.getvalue()) == (due and cur is None), msg)
        ctx.check('counter', lg.iter == count and len(lg.x_array) == len(kept) and len(lg.val_array) == len(kept), msg)
        for (a, b), gx, gv in zip(kept, lg.x_array, lg.val_array):
            ctx.same('point recorded', gx, b, 'adjusted')
            ctx.same('value recorded', gv, a, 'adjusted')
        if kept:
            ctx.same('latest', lg.x, kept[-1][1], 'adjusted')
