"""C25: conjugate-gradient solver and masks."""
import time
import numpy as np
from scipy.sparse.linalg import LinearOperator
from scipy import sparse
import LinearResponseVariationalBayes.ConjugateGradient as cg

from core import scenario, prop

prop('C25', rule='random positive definite systems of one to thirty unknowns, point dependent, with random right-hand sides, starting points, preconditioners in three forms and tolerances; random and generated masks in histories of several calls; every boolean vector of a random length and density for splitting',
     required=['solution', 'status', 'residual', 'masked vectors', 'subset solutions', 'subset masks', 'subset status', 'record counts', 'inputs unchanged',
               'sum of subsets', 'operator point', 'mask partition', 'mask width', 'split halves', 'split sizes', 'recursive partition', 'recursive size', 'records reset', 'refused', 'unconverged status', 'preconditioner', 'start', 'record times'],
     assumptions=['the results list is always passed to recursive_split: the shared default is documented Python behaviour'])


class System(object):
    def __init__(self, ctx, cond=None, n=None, lam=None):
        rng, fixed = ctx.rng, lam
        self.n = n = int(rng.randint(1, 25)) if n is None else n
        self.x0 = rng.normal(size=n)
        cond = 10. ** rng.uniform(0, 3) if cond is None else cond
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        lam = np.exp(rng.uniform(-np.log(cond), 0, size=n)) * 10. ** rng.uniform(-2, 2)
        k = rng.randint(3)
        if k == 0:
            # A few distinct eigenvalues.
            lam = lam[rng.randint(0, min(n, 3), size=n)]
        if fixed is not None:
            lam = fixed
        self.base = np.dot(q * lam, q.T)
        self.base = 0.5 * (self.base + self.base.T)
        self.shift = lam.min()
        self.calls = []
        ctx.struct('{} unknowns'.format(n))

    def at(self, x):
        """The matrix depends on the point."""
        return self.base + np.diag(self.shift * np.tanh(x) ** 2)

    def hvp(self, x, vec):
        self.calls.append((np.array(x), np.array(vec)))
        return np.dot(self.at(x), np.asarray(vec).reshape(-1))

    def matrix(self):
        return self.at(self.x0)


def preconditioner(ctx, A, applied):
    k = ctx.rng.randint(5)
    n = len(A)
    m = [None, np.diag(1. / np.diag(A)), np.linalg.inv(A), None, np.eye(n)][k]
    if m is None:
        return None
    m = 0.5 * (m + m.T)
    ctx.feat('preconditioner')
    j = ctx.rng.randint(3)
    if j == 0:
        return m
    if j == 1:
        return sparse.csr_matrix(m)


    def apply(v):
        applied.append(np.array(v))
        return np.dot(m, v)
    return LinearOperator((n, n), apply)


def check_solution(ctx, monitor, A, b, got, tol, msg=''):
    """||A x - b|| <= tol ||b|| is what the tolerance means."""
    r = np.dot(A, got) - b
    lam = np.linalg.eigvalsh(A)
    nb = np.linalg.norm(b)
    # scipy's recursive residual drifts from the real one by rounding.
    slack = 1e-13 * lam[-1] / lam[0] * max(nb, lam[-1] * np.linalg.norm(got)) * (10 + len(b))
    # For a zero right-hand side scipy's tolerance is an absolute one.
    nb = nb or 1.
    ctx.check('residual', np.linalg.norm(r) <= 1.0001 * tol * nb + slack,
              lambda: 'residual {} for tolerance {} {}'.format(np.linalg.norm(r) / max(nb, 1e-300), tol, msg))
    want = np.linalg.solve(A, b)
    t = np.full(len(b), (2 * tol * nb + slack) / lam[0] + 1e-14 * lam[-1] / lam[0] * np.linalg.norm(want) * len(b))
    ctx.close(monitor, got, want, t, msg)


def solver_for(ctx, s):
    x0 = np.array(s.x0)
    solver = cg.ConjugateGradientSolver(s.hvp, x0)
    s.given = x0
    if ctx.rng.rand() < 0.5:
        solver.tol = float(10. ** ctx.rng.uniform(-11, -3))
    s.applied = []
    solver.preconditioner = preconditioner(ctx, s.matrix(), s.applied)
    return solver


def vector(ctx, n):
    k = ctx.rng.randint(6)
    if k == 0:
        b = np.zeros(n)
        b[ctx.rng.randint(n)] = 1.
        return b
    if k == 1:
        return ctx.rng.randint(-3, 4, size=n).astype([float, int][ctx.rng.randint(2)])
    if k == 2:
        b = np.zeros(2 * n)[::2]
        b[:] = ctx.rng.normal(size=n)
        return b
    return ctx.rng.normal(size=n) * 10. ** ctx.rng.uniform(-3, 3)


def point_used(ctx, s):
    ctx.check('operator point', len(s.calls) > 0 and all(np.array_equal(c[0], s.x0) for c in s.calls),
              'the Hessian-vector product was not evaluated at the given point')
    ctx.same('inputs unchanged', s.given, s.x0, 'the point')


@scenario('C25', 200)
def solving(ctx):
    s = System(ctx)
    A = s.matrix()
    solver = solver_for(ctx, s)
    for _ in range(ctx.rng.randint(1, 4)):
        b = vector(ctx, s.n)
        before = np.array(b)
        if ctx.rng.rand() < 0.5:
            start = ctx.rng.normal(size=s.n)
            if ctx.rng.rand() < 0.2:
                start = np.linalg.solve(A, b)
            kept = np.array(start)
            got, info = ctx.call('get_hinv_vec', solver.get_hinv_vec, b, x0=start) if ctx.rng.rand() < 0.5 else \
                ctx.call('get_hinv_vec', solver.get_hinv_vec, b, start)
            ctx.same('inputs unchanged', start, kept, 'the starting point')
        else:
            got, info = ctx.call('get_hinv_vec', solver.get_hinv_vec, b)
        ctx.same('inputs unchanged', b, before, 'the vector')
        ctx.check('status', info == 0, 'status {}'.format(info))
        check_solution(ctx, 'solution', A, before.astype(float), np.asarray(got), solver.tol)
    ctx.check('record counts', len(solver.vecs) == len(solver.hinv_vecs) == len(solver.masks) == 0, 'a single solution is not recorded')
    point_used(ctx, s)
    if isinstance(solver.preconditioner, LinearOperator):
        # A right-hand side that zero does not solve needs at least one step.
        b = ctx.rng.normal(size=s.n)
        del s.applied[:]
        ctx.call('get_hinv_vec', solver.get_hinv_vec, b)
        ctx.check('preconditioner', len(s.applied) > 0, 'the preconditioner was not applied')
    # A start that already meets the tolerance with room is the answer.
    solver.tol = 1e-6
    b = ctx.rng.normal(size=s.n)
    start = np.linalg.solve(A, b) + ctx.rng.normal(size=s.n) * 1e-9 * np.linalg.norm(b) / np.linalg.eigvalsh(A)[-1]
    if np.linalg.norm(np.dot(A, start) - b) < 1e-7 * np.linalg.norm(b):
        got, info = ctx.call('get_hinv_vec', solver.get_hinv_vec, b, x0=np.array(start))
        ctx.same('start', np.asarray(got), start, 'a start within the tolerance')
        ctx.check('status', info == 0, 'status {}'.format(info))
    if ctx.rng.rand() < 0.3:
        ctx.refused('refused', lambda: solver.get_hinv_vec(np.ones(s.n + 1)), 'a vector of the wrong length')


@scenario('C25', 30)
def unconverged(ctx):
    """The solver's status must reach the caller."""
    n = int(ctx.rng.randint(80, 110))
    s = System(ctx, n=n, lam=np.logspace(-9, 0, n))
    A = s.matrix()
    solver = cg.ConjugateGradientSolver(s.hvp, np.array(s.x0))
    s.given = solver.x0
    solver.tol = 1e-16
    b = ctx.rng.normal(size=s.n)
    got, info = ctx.call('get_hinv_vec', solver.get_hinv_vec, b)
    r = np.linalg.norm(np.dot(A, got) - b) / np.linalg.norm(b)
    # Far above what rounding can hide at this conditioning.
    if r > 0.05:
        ctx.check('unconverged status', info != 0, 'residual {} but status {}'.format(r, info))
    else:
        ctx.abandon('converged')
    solver.get_hinv_vec_subsets(b, [np.full(s.n, True)])
    ctx.check('subset status', solver.cg_infos == [info], 'status {} instead of {}'.format(solver.cg_infos, info))


def random_masks(ctx, n):
    rng = ctx.rng
    k = rng.randint(4)
    if k == 0 and n > 1:
        return ctx.call('get_masks', cg.get_masks, n, int(rng.randint(1, n)))
    if k == 1:
        res = []
        cg.recursive_split(np.full(n, True), results=res, terminate_len=int(rng.randint(1, 5)))
        return res
    masks = []
    for _ in range(rng.randint(0, 5)):
        m = rng.rand(n) < rng.choice([0., 0.2, 0.7, 1.])
        masks.append(m)
    if masks and rng.rand() < 0.3:
        masks.append(masks[0])
    return masks


@scenario('C25', 160)
def subsets(ctx):
    s = System(ctx, cond=10. ** ctx.rng.uniform(0, 2), n=int(ctx.rng.randint(1, 14)))
    A = s.matrix()
    solver = solver_for(ctx, s)
    done = []
    for _ in range(ctx.rng.randint(1, 4)):
        if done and ctx.rng.rand() < 0.25:
            ctx.call('initialize', solver.initialize)
            done = []
            ctx.check('records reset', solver.vecs == [] and solver.hinv_vecs == [] and solver.masks == [] and solver.times == [] and solver.cg_infos == [], 'not empty')
        b = vector(ctx, s.n)
        masks = random_masks(ctx, s.n)
        if ctx.rng.rand() < 0.3:
            masks = tuple(masks)
        unused = ~np.any(np.array(list(masks) + [np.zeros(s.n, dtype=bool)]), axis=0)
        if np.any(unused) and ctx.rng.rand() < 0.5:
            # What no mask asks for may be anything.
            b = np.array(b, dtype=float)
            b[unused] = ctx.rng.choice([np.nan, np.inf, -np.inf, 1e300], size=int(np.sum(unused)))
            ctx.feat('not finite outside the masks')
        kept_b, kept = np.array(b), [np.array(m) for m in masks]
        kw = {}
        if ctx.rng.rand() < 0.3:
            kw['verbose'] = True
            if ctx.rng.rand() < 0.5:
                kw['print_every'] = int(ctx.rng.randint(1, 12))
        clock, recorded = time.time(), len(solver.times)
        ctx.call('get_hinv_vec_subsets of {} masks'.format(len(masks)), solver.get_hinv_vec_subsets, b, masks, **kw)
        clock, spent = time.time() - clock, [float(t) for t in solver.times[recorded:]]
        ctx.check('record times', all(t >= 0 for t in spent) and sum(spent) <= clock + 1e-3, lambda: '{} in a call of {} s'.format(spent, clock))
        ctx.same('inputs unchanged', b, kept_b, 'the vector')
        ctx.check('inputs unchanged', len(masks) == len(kept), 'the masks')
        for m, k in zip(masks, kept):
            ctx.same('inputs unchanged', m, k, 'a mask')
        done += [(k, np.where(k, kept_b, 0).astype(float)) for k in kept]
        ctx.check('record counts', len(solver.masks) == len(solver.vecs) == len(solver.hinv_vecs) == len(solver.cg_infos) == len(solver.times) == len(done),
                  lambda: '{} {} {} {} {} records of {}'.format(len(solver.masks), len(solver.vecs), len(solver.hinv_vecs), len(solver.cg_infos), len(solver.times), len(done)))
        for i, (k, v) in enumerate(done):
            ctx.same('subset masks', np.asarray(solver.masks[i]), k, 'record {}'.format(i))
            ctx.same('masked vectors', np.asarray(solver.vecs[i], float), v, 'record {}'.format(i))
            ctx.check('subset status', solver.cg_infos[i] == 0, 'status {}'.format(solver.cg_infos[i]))
            check_solution(ctx, 'subset solutions', A, v, np.asarray(solver.hinv_vecs[i]), solver.tol, 'record {}'.format(i))
        # When the masks partition the indices the solutions add up.
        tot = np.sum(np.array(kept, dtype=int).reshape(len(kept), s.n), axis=0)
        if len(kept) and np.all(tot == 1):
            got = np.sum(np.array(solver.hinv_vecs[len(done) - len(kept):]), axis=0)
            want = np.linalg.solve(A, kept_b.astype(float))
            lam = np.linalg.eigvalsh(A)
            t = sum(2 * solver.tol * np.linalg.norm(v) for _, v in done[-len(kept):]) / lam[0]
            ctx.close('sum of subsets', got, want, np.full(s.n, t + 1e-11 * lam[-1] / lam[0] * (np.linalg.norm(want) + 1e-300)))
    if s.calls:
        point_used(ctx, s)


@scenario('C25', 300)
def masks(ctx):
    n = int(ctx.rng.randint(2, 40)) if ctx.rng.rand() < 0.8 else int(ctx.rng.randint(40, 400))
    w = int(ctx.rng.randint(1, n))
    if ctx.rng.rand() < 0.3:
        divs = [d for d in range(1, n) if n % d == 0]
        w = divs[ctx.rng.randint(len(divs))]
    ctx.struct('{} by {}'.format(n, w))
    got = ctx.call('get_masks', cg.get_masks, n, w)
    ctx.check('mask width', len(got) == -(-n // w), '{} masks'.format(len(got)))
    for i, m in enumerate(got):
        m = np.asarray(m)
        ctx.check('mask partition', m.dtype == bool and m.shape == (n,), repr(m))
        want = np.zeros(n, bool)
        want[i * w:min(n, (i + 1) * w)] = True
        ctx.same('mask partition', m, want, 'block {}'.format(i))
        ctx.check('mask width', np.sum(m) == (w if i < len(got) - 1 else n - w * (len(got) - 1)), 'block {}'.format(i))
    # The blocks are separate arrays.
    got[0][:] = False
    if len(got) > 1:
        want = np.zeros(n, bool)
        want[w:min(n, 2 * w)] = True
        ctx.same('mask partition', got[1], want, 'after writing to another block')
    if ctx.rng.rand() < 0.3:
        bad = [(n, 0), (n, -1), (n, n + 1)][ctx.rng.randint(3)]
        ctx.refused('refused', lambda: cg.get_masks(*bad), 'width {} of {}'.format(bad[1], bad[0]))


def boolean(ctx):
    n = int(ctx.rng.randint(0, 30)) if ctx.rng.rand() < 0.8 else int(ctx.rng.randint(30, 200))
    v = ctx.rng.rand(n) < ctx.rng.choice([0., 0.1, 0.5, 1.])
    if ctx.rng.rand() < 0.2:
        big = np.zeros(2 * n, bool)
        big[::2] = v
        v = big[::2]
    ctx.struct('{} of {}'.format(int(np.sum(v)), n))
    return v


@scenario('C25', 300)
def splitting(ctx):
    v = boolean(ctx)
    kept = np.array(v)
    a, b = ctx.call('split_vector', cg.split_vector, v)
    ctx.same('inputs unchanged', v, kept, 'the boolean vector')
    ctx.check('split halves', np.asarray(a).dtype == bool and np.asarray(b).dtype == bool, 'not boolean')
    ctx.same('split halves', np.logical_or(a, b), kept, 'union')
    ctx.check('split halves', not np.any(np.logical_and(a, b)), 'overlap')
    ctx.check('split sizes', abs(int(np.sum(a)) - int(np.sum(b))) <= 1, '{} and {}'.format(np.sum(a), np.sum(b)))


@scenario('C25', 300)
def recursive(ctx):
    v = boolean(ctx)
    kept = np.array(v)
    limit = int(ctx.rng.randint(1, 15))
    # The results are appended to what the caller has.
    old = [np.array([True])] * int(ctx.rng.randint(0, 3))
    res = list(old)
    if ctx.rng.rand() < 0.3:
        limit = 10
        ctx.call('recursive_split', cg.recursive_split, v, results=res)
    else:
        ctx.call('recursive_split', cg.recursive_split, v, results=res, terminate_len=limit)
    ctx.same('inputs unchanged', v, kept, 'the boolean vector')
    ctx.check('recursive partition', len(res) >= len(old) + 1, '{} results'.format(len(res)))
    for o, r in zip(old, res):
        ctx.check('recursive partition', o is r, 'earlier results moved')
    res = res[len(old):]
    count = np.zeros(len(kept), int)
    for m in res:
        m = np.asarray(m)
        ctx.check('recursive partition', m.shape == kept.shape and m.dtype == bool, repr(m))
        count += m
        ctx.check('recursive size', np.sum(m) <= limit, '{} above {}'.format(np.sum(m), limit))
    ctx.same('recursive partition', count, kept.astype(int))
    if np.sum(kept) <= limit:
        ctx.check('recursive size', len(res) == 1, 'a short vector was split')
