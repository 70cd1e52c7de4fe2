"""C07-C10: derivatives of the free-to-vector transform and transparency to
automatic differentiation."""
import copy
import numpy as onp
import autograd
import autograd.numpy as np
import scipy.sparse
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.Parameters as par_lib
import LinearResponseVariationalBayes.MatrixParameters as mat_par

from core import scenario, prop, Skip
import gen
import functors
import oracles
from props.params import pollute


def dense(x):
    if scipy.sparse.issparse(x):
        return onp.asarray(x.todense())
    return onp.asarray(x)


def tree(ctx, max_free=14, **kw):
    spec = gen.rand_spec(ctx.rng, ctx, index=ctx.index, max_free=max_free, **kw)
    return spec


def directions(rng, n):
    """Random dense and sparse directions."""
    out = [rng.uniform(-1, 1, size=n) for _ in range(2)]
    i = rng.randint(n)
    e = onp.zeros(n)
    e[i] = 1.
    out.append(e)
    return out


# ---------------------------------------------------------------- C07

prop('C07', rule='every parameter kind in rotation at random free points after a random history; the reported Jacobian is applied to dense and coordinate directions and compared with spectral derivatives of the executed map',
     required=['jacobian', 'jacobian shape', 'jacobian independent of state'],
     assumptions=['derivatives of the executed map are measured by Chebyshev interpolation at two orders; points where the two disagree are abandoned, and counted'])


def check_jac(ctx, spec, obj, f, all_columns=False):
    ref = spec.build()

    def vec_at(x):
        ref.set_free(x)
        return onp.array(ref.get_vector())

    J = ctx.call('free_to_vector_jac', obj.free_to_vector_jac, f)
    ctx.check('jacobian shape', tuple(J.shape) == (spec.vector_size, spec.free_size),
              lambda: '{}: {}'.format(spec.describe(), J.shape))
    D = dense(J)
    dirs = directions(ctx.rng, f.size)
    if all_columns:
        dirs = list(onp.eye(f.size))
    base = vec_at(f)
    mag = onp.abs(base) + offset_magnitude(spec)
    for u in dirs:
        d, e = oracles.derivs(lambda t: vec_at(f + t * u), 1, 0.25, mag=mag)
        oracles.compare(ctx, 'jacobian', onp.dot(D, u), d[1], e[1], msg=spec.describe())
    return D


def offset_magnitude(spec):
    """Magnitude of the offsets added to transformed values (bounds)."""
    out = []
    for _, l in spec.leaves():
        b = max([abs(x) for x in (getattr(l, 'lb', 0.), getattr(l, 'ub', 0.))
                 if abs(x) < gen.INF] + [getattr(l, 'diag_lb', 0.)])
        out.append(onp.full(l.vector_size, 2. * b))
    return onp.concatenate(out)


@scenario('C07', 400)
def jacobian(ctx):
    spec = tree(ctx, 20)
    obj = spec.build()
    rng = ctx.rng
    pollute(ctx, spec, obj)
    f = gen.rand_free(rng, spec).clip(-3, 3)
    D = check_jac(ctx, spec, obj, f, all_columns=(spec.free_size <= 3))
    # Same answer from another state and another object.
    pollute(ctx, spec, obj)
    D2 = dense(ctx.call('free_to_vector_jac', obj.free_to_vector_jac, onp.array(f)))
    ctx.close('jacobian independent of state', D2, D, 1e-12 * (1 + onp.abs(D)), spec.describe())
    v = onp.array(obj.free_to_vector(f))
    fresh = spec.build()
    fresh.set_free(f)
    ctx.close('free_to_vector', v, fresh.get_vector(), 1e-12 * (1 + onp.abs(v)), spec.describe())


@scenario('C07', 60, 900)
def jacobian_large(ctx):
    rng = ctx.rng
    kinds = gen.LEAF_KINDS + ['dict']
    spec = gen.rand_spec(rng, ctx, index=ctx.index, kinds=kinds)
    if spec.free_size > 120:
        raise Skip('too large')
    obj = spec.build()
    f = gen.rand_free(rng, spec, 0.7).clip(-2, 2)
    check_jac(ctx, spec, obj, f)
    f = rng.uniform(-1, 1, size=spec.free_size) * (6. if not gen._has_matrix(spec) else 2.)
    check_jac(ctx, spec, obj, f)


def far_free(rng, spec, top):
    f = rng.uniform(-top, top, size=spec.free_size)
    f[rng.rand(f.size) < 0.3] *= 0.05
    if rng.rand() < 0.3:
        # Entries that nearly agree.
        f = f[0] * (1. + rng.randn(f.size) * 10. ** rng.uniform(-9, -4))
    return f


def far_reference(spec, f):
    """Closed-form Jacobian and Hessians with the magnitude of the terms."""
    n, m = spec.free_size, spec.vector_size
    J, H = onp.zeros((m, n)), onp.zeros((m, n, n))
    SJ = onp.zeros(m)
    if spec.composite:
        i = j = 0
        for c in spec.children:
            a, b = slice(i, i + c.vector_size), slice(j, j + c.free_size)
            J[a, b], H[a, b, b], SJ[a] = far_reference(c, f[b])
            i, j = a.stop, b.stop
    elif spec.kind == 'simplex':
        k = spec.shape[1]
        for r in range(spec.shape[0]):
            p, j, h = oracles.simplex_derivs(f[r * (k - 1):(r + 1) * (k - 1)])
            a, b = slice(r * k, (r + 1) * k), slice(r * (k - 1), (r + 1) * (k - 1))
            J[a, b], SJ[a] = j, p
            H[a, b, b] = h
    else:
        d, h, sc = oracles.bounded_derivs(spec.lb, spec.ub, f)
        i = onp.arange(n)
        J[i, i], H[i, i, i], SJ = d, h, sc
    return J, H, SJ


FAR_KINDS = ['scalar', 'vector', 'array', 'simplex']


def far_spec(ctx, big):
    rng = ctx.rng
    k = ctx.index % 5
    if k < 4:
        return gen.rand_leaf(rng, 'p', FAR_KINDS[k], big=big)
    return gen.DictSpec('d', [gen.rand_leaf(rng, 'p{}'.format(i), FAR_KINDS[rng.randint(4)], big=False)
                              for i in range(rng.randint(2, 4))])


def posdef_reference(k, f):
    """Closed-form derivatives of the lower triangle of L L', where L has the
    exponentials of its free values on the diagonal, and the size of the
    numbers they are made of."""
    pairs = [(i, j) for i in range(k) for j in range(i + 1)]
    L, D = onp.zeros((k, k)), onp.ones(len(pairs))
    for t, (i, j) in enumerate(pairs):
        L[i, j] = onp.exp(f[t]) if i == j else f[t]
        if i == j:
            D[t] = L[i, j]
    n = len(pairs)
    J, H = onp.zeros((n, n)), onp.zeros((n, n, n))
    for v, (i, j) in enumerate(pairs):
        for t, (a, b) in enumerate(pairs):
            # d M_ij / d L_ab = [i = a] L_jb + [j = a] L_ib
            g = (i == a) * L[j, b] + (j == a) * L[i, b]
            J[v, t] = g * D[t]
            for q, (c, d) in enumerate(pairs):
                if b == d:
                    H[v, t, q] = ((i == a) * (j == c) + (j == a) * (i == c)) * D[t] * D[q]
            if a == b:
                H[v, t, t] += g * D[t]
    size = (1 + onp.max(onp.abs(f))) * (1 + onp.max(onp.abs(L))) ** 2
    return J, H, size


@scenario('C07', 60)
def jacobian_matrices(ctx):
    """Arrays of matrices that are the same, nearly the same, or very
    different from each other, entry by entry."""
    spec, obj, points = matrices(ctx, 4)
    for f, J, H, size in points:
        got = dense(ctx.call('free_to_vector_jac', obj.free_to_vector_jac, onp.array(f)))
        ctx.close('jacobian', got, J, 1e-11 * onp.abs(J) + 1e-14 * size[:, None], spec.describe() + ' at {}'.format(f))


@scenario('C08', 40)
def hessian_matrices(ctx):
    spec, obj, points = matrices(ctx, 3)
    for f, J, H, size in points:
        got = onp.array([dense(h) for h in ctx.call('free_to_vector_hess', obj.free_to_vector_hess, onp.array(f))])
        ctx.close('hessian', got, H, 1e-11 * onp.abs(H) + 1e-14 * size[:, None, None], spec.describe() + ' at {}'.format(f))


def matrices(ctx, top):
    rng = ctx.rng
    k = int(rng.randint(1, 4))
    lb = float(rng.choice([0., 0.3]))
    spec = [gen.PosDefVectorSpec('m', int(rng.randint(2, top + 1)), k, lb),
            gen.PosDefArraySpec('m', (2, int(rng.randint(1, 3))), k, lb)][ctx.index % 2]
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    B, n = spec.block, spec.free_size // spec.block
    points = []
    for _ in range(2):
        how = rng.randint(4)
        if how == 0:
            f = rng.uniform(-4, 4, size=n * B)
        else:
            f = onp.tile(rng.uniform(-3, 3, size=B), n)
            if how > 1:
                some = rng.rand(f.size) < rng.choice([0.2, 1.])
                f = f + some * rng.randn(f.size) * 10. ** rng.uniform(-10, -2)
        J, H, size = onp.zeros((n * B, n * B)), onp.zeros((n * B,) * 3), onp.zeros(n * B)
        for t in range(n):
            a = slice(t * B, (t + 1) * B)
            J[a, a], H[a, a, a], size[a] = posdef_reference(k, f[a])
        points.append((f, J, H, size))
    return spec, obj, points


@scenario('C07', 150)
def jacobian_far(ctx):
    """Entry by entry, to relative precision, where values nearly touch their
    bounds or probabilities are tiny; and at points close to each other."""
    rng = ctx.rng
    spec = far_spec(ctx, bool(rng.rand() < 0.3))
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    f = far_free(rng, spec, float(rng.choice([5., 15., 25., 35.])))
    for _ in range(2):
        J = dense(ctx.call('free_to_vector_jac', obj.free_to_vector_jac, f))
        want, _, sc = far_reference(spec, f)
        ctx.close('jacobian', J, want, 1e-11 * onp.abs(want) + 1e-13 * sc[:, None], spec.describe() + ' at {}'.format(f))
        f = f + 1e-6 * rng.randn(f.size) * (1 + onp.abs(f))


@scenario('C07', 150)
def jacobian_nearby(ctx):
    """Sequences of points that nearly coincide, agree in some coordinates, or
    share one array whose contents change, against fresh objects."""
    rng = ctx.rng
    spec = tree(ctx, 14)
    obj = spec.build()
    pollute(ctx, spec, obj)
    for msg, x in nearby_points(rng, gen.rand_free(rng, spec).clip(-3, 3)):
        D = dense(ctx.call('free_to_vector_jac', obj.free_to_vector_jac, x))
        want = dense(spec.build().free_to_vector_jac(onp.array(x)))
        ctx.close('jacobian independent of state', D, want, 1e-11 * (1e-3 + onp.abs(want)), spec.describe() + ' ' + msg)
        v = onp.array(obj.free_to_vector(x))
        fresh = spec.build()
        fresh.set_free(onp.array(x))
        ctx.close('free_to_vector', v, fresh.get_vector(), 1e-13 * (1e-3 + onp.abs(v)), spec.describe() + ' ' + msg)
    check_jac(ctx, spec, obj, onp.array(x))


def nearby_points(rng, f):
    """(label, point) pairs, in an order chosen at random; one array object is
    offered again and again with different contents."""
    buf = onp.array(f)
    yield 'base point', buf
    for _ in range(4):
        k = rng.randint(5)
        if k == 0:
            buf *= 1. + 10. ** rng.uniform(-8, -4)
            yield 'same array, scaled a little', buf
        elif k == 1:
            buf[rng.randint(buf.size)] += 10. ** rng.uniform(-7, -1)
            yield 'same array, one entry changed', buf
        elif k == 2:
            yield 'new array, close by', buf + 10. ** rng.uniform(-8, -5) * rng.randn(buf.size)
        elif k == 3:
            buf[:] = buf[rng.permutation(buf.size)]
            yield 'same array, entries reordered', buf
        else:
            buf *= -1.
            yield 'same array, negated', buf


# ---------------------------------------------------------------- C08

prop('C08', rule='every parameter kind in rotation at random free points; each reported Hessian is contracted with direction pairs and compared with spectral second derivatives of the executed map',
     required=['hessian', 'hessian list', 'hessian symmetric'],
     assumptions=['as for C07'])


@scenario('C08', 300)
def hessian(ctx):
    rng = ctx.rng
    spec = tree(ctx, 14)
    obj = spec.build()
    ref = spec.build()
    pollute(ctx, spec, obj)
    f = gen.rand_free(rng, spec).clip(-3, 3)

    def vec_at(x):
        ref.set_free(x)
        return onp.array(ref.get_vector())

    H = ctx.call('free_to_vector_hess', obj.free_to_vector_hess, f)
    ctx.check('hessian list', len(H) == spec.vector_size, lambda: '{}: {} matrices'.format(spec.describe(), len(H)))
    for h in H:
        ctx.check('hessian list', tuple(h.shape) == (spec.free_size, spec.free_size), lambda: '{}: {}'.format(spec.describe(), h.shape))
    D = onp.array([dense(h) for h in H])
    ctx.close('hessian symmetric', D, onp.transpose(D, (0, 2, 1)), 1e-10 * (1 + onp.abs(D)), spec.describe())
    mag = onp.abs(vec_at(f)) + offset_magnitude(spec)
    n = f.size
    pairs = [(rng.uniform(-1, 1, size=n), None), (rng.uniform(-1, 1, size=n), rng.uniform(-1, 1, size=n))]
    i, j = rng.randint(n), rng.randint(n)
    pairs.append((onp.eye(n)[i], onp.eye(n)[j]))
    pairs.append((onp.eye(n)[i], None))
    for u, w in pairs:
        if w is None:
            d, e = oracles.derivs(lambda t: vec_at(f + t * u), 2, 0.35, mag=mag)
            want, err = d[2], e[2]
            w = u
        else:
            want, err = oracles.second_mixed(lambda s, t: vec_at(f + s * u + t * w), 0.25, mag=mag)
        got = onp.einsum('kij,i,j->k', D, u, w)
        oracles.compare(ctx, 'hessian', got, want, err, msg=spec.describe())
    pollute(ctx, spec, obj)
    D2 = onp.array([dense(h) for h in obj.free_to_vector_hess(onp.array(f))])
    ctx.close('hessian independent of state', D2, D, 1e-11 * (1 + onp.abs(D)), spec.describe())


@scenario('C08', 100)
def hessian_far(ctx):
    rng = ctx.rng
    spec = far_spec(ctx, False)
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    f = far_free(rng, spec, float(rng.choice([5., 15., 25., 35.])))
    for _ in range(2):
        D = onp.array([dense(h) for h in ctx.call('free_to_vector_hess', obj.free_to_vector_hess, f)])
        _, want, sc = far_reference(spec, f)
        ctx.close('hessian', D, want, 1e-9 * onp.abs(want) + 1e-13 * sc[:, None, None], spec.describe() + ' at {}'.format(f))
        f = f + 1e-6 * rng.randn(f.size) * (1 + onp.abs(f))


@scenario('C08', 100)
def hessian_nearby(ctx):
    rng = ctx.rng
    spec = tree(ctx, 8)
    obj = spec.build()
    pollute(ctx, spec, obj)
    for msg, x in nearby_points(rng, gen.rand_free(rng, spec).clip(-3, 3)):
        D = onp.array([dense(h) for h in ctx.call('free_to_vector_hess', obj.free_to_vector_hess, x)])
        want = onp.array([dense(h) for h in spec.build().free_to_vector_hess(onp.array(x))])
        ctx.close('hessian independent of state', D, want, 1e-11 * (1e-3 + onp.abs(want)), spec.describe() + ' ' + msg)


# ---------------------------------------------------------------- C09

prop('C09', rule='every parameter kind in rotation with random gradients and symmetric Hessians in dense and sparse formats; the converted Hessian is compared with spectral second derivatives of the executed composition',
     required=['converted hessian', 'left at the free value', 'arguments unchanged'],
     assumptions=['as for C07'])


@scenario('C09', 300)
def conversion(ctx):
    rng = ctx.rng
    spec = tree(ctx, 14)
    obj = spec.build()
    ref = spec.build()
    pollute(ctx, spec, obj)
    f = gen.rand_free(rng, spec).clip(-3, 3)
    ref.set_free(f)
    v0 = onp.array(ref.get_vector())
    n, m = spec.free_size, spec.vector_size
    # Scale so that no member dwarfs the others.
    J = dense(ref.free_to_vector_jac(f))
    ref.set_free(f)
    sc = onp.maximum(onp.max(onp.abs(J), axis=1), 1e-6)
    g = rng.randn(m) / sc
    h = rng.randn(m, m)
    h = 0.5 * (h + h.T) / onp.outer(sc, sc)
    style = rng.randint(6)
    if style == 0:
        g[:] = 0.
    elif style == 1:
        h[:] = 0.
    elif style == 2:
        g[rng.rand(m) < 0.5] = 0.
        z = rng.rand(m, m) < 0.6
        h[z | z.T] = 0.
    form = rng.randint(5)
    harg = [h.copy(), scipy.sparse.csr_matrix(h), scipy.sparse.coo_matrix(h),
            scipy.sparse.csc_matrix(h), onp.array(h, order='F')][form]
    ctx.feat('hessian form {}'.format(['dense', 'csr', 'coo', 'csc', 'fortran'][form]))
    garg, farg = g.copy(), f.copy()
    out = ctx.call('convert', par_lib.convert_vector_to_free_hessian, obj, farg, garg, harg)
    F = dense(out)
    ctx.check('converted shape', F.shape == (n, n), lambda: '{}'.format(F.shape))
    ctx.same('arguments unchanged', garg, g)
    ctx.same('arguments unchanged', farg, f)
    ctx.same('arguments unchanged', dense(harg), h)
    ref.set_free(f)
    val = spec.get_value(ref)
    spec.close(ctx, 'left at the free value', spec.get_value(obj), val, spec.value_tol(val))

    def comp(x):
        ref.set_free(x)
        d = onp.array(ref.get_vector()) - v0
        return onp.dot(g, d) + 0.5 * onp.dot(d, onp.dot(h, d))

    mag = 6. * onp.sum((onp.abs(g) + onp.sum(onp.abs(h), axis=0) * sc) * (onp.abs(v0) + offset_magnitude(spec)))
    dirs = [rng.uniform(-1, 1, size=n), rng.uniform(-1, 1, size=n), onp.eye(n)[rng.randint(n)]]
    for u in dirs:
        d, e = oracles.derivs(lambda t: comp(f + t * u), 2, 0.3, mag=mag)
        oracles.compare(ctx, 'converted hessian', onp.dot(u, onp.dot(F, u)), d[2], e[2], msg=spec.describe())
    u, w = dirs[0], dirs[1]
    want, err = oracles.second_mixed(lambda s, t: comp(f + s * u + t * w), 0.25, mag=mag)
    oracles.compare(ctx, 'converted hessian', onp.dot(u, onp.dot(F, w)), want, err, msg=spec.describe())
    # From another state.
    pollute(ctx, spec, obj)
    F2 = dense(par_lib.convert_vector_to_free_hessian(obj, farg, garg, harg))
    ctx.close('converted independent of state', F2, F, 1e-10 * (1 + onp.abs(F)))


@scenario('C09', 160)
def conversion_scales(ctx):
    """Entry by entry, to relative precision, with gradients and second
    derivatives of very different sizes; sparse Hessians in unusual storage."""
    rng = ctx.rng
    spec = far_spec(ctx, False)
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    n, m = spec.free_size, spec.vector_size
    f = far_free(rng, spec, float(rng.choice([3., 12., 20.])))
    J, H, sc = far_reference(spec, f)
    sc = onp.maximum(sc, 1e-12)
    g = rng.randn(m) * 10. ** rng.uniform(-3, 3, size=m) / sc
    if rng.randint(2):
        g = rng.randn(m) * 10. ** rng.uniform(-12, 6, size=m)
    if rng.rand() < 0.2:
        g[rng.rand(m) < 0.5] = 0.
    h = rng.randn(m, m)
    h = 0.5 * (h + h.T) / onp.outer(sc, sc) * 10. ** rng.uniform(-6, 3)
    if rng.randint(2):
        z = rng.rand(m, m) < 0.6
        h[z | z.T] = 0.
    if rng.rand() < 0.15:
        h = onp.diag(onp.diag(h))
    name, harg = unusual_sparse(rng, h)
    ctx.feat('hessian storage ' + name)
    parts = storage(harg)
    garg, farg = g.copy(), f.copy()
    F = dense(ctx.call('convert', par_lib.convert_vector_to_free_hessian, obj, farg, garg, harg))
    for a, b in zip(storage(harg), parts):
        ctx.same('arguments unchanged', a, b, 'hessian storage ' + name)
    ctx.same('arguments unchanged', garg, g)
    ctx.same('arguments unchanged', farg, f)
    want = onp.dot(J.T, onp.dot(h, J)) + onp.tensordot(g, H, axes=(0, 0))
    size = onp.dot(onp.abs(J).T, onp.dot(onp.abs(h), onp.abs(J))) + onp.tensordot(onp.abs(g), onp.abs(H), axes=(0, 0))
    # Derivatives are themselves known to a multiple of sc.
    slack = onp.einsum('k,kij->ij', onp.abs(g) * sc, (onp.abs(H) + onp.abs(J)[:, :, None] + onp.abs(J)[:, None, :] > 0) * 1.)
    slack += onp.dot((onp.abs(J).T > 0) * sc, onp.dot(onp.abs(h), onp.abs(J)))
    slack = slack + slack.T
    ctx.close('converted hessian', F, want, 1e-9 * size + 1e-12 * slack, spec.describe() + ' at {}'.format(f))


def storage(a):
    if scipy.sparse.issparse(a):
        if a.format == 'coo':
            # The installed scipy itself puts these in canonical form.
            return [dense(a).copy()]
        if a.format not in ('csr', 'csc'):
            return [onp.array(a.todense())]
        return [onp.array(x, copy=True) for x in (a.data, a.indices, a.indptr)]
    return [onp.array(a, copy=True)]


def unusual_sparse(rng, h):
    """The same matrix, stored in ways that are legal but unusual."""
    m = h.shape[0]
    k = rng.randint(9)
    if k >= 6:
        make = [scipy.sparse.dia_matrix, scipy.sparse.lil_matrix, scipy.sparse.bsr_matrix][k - 6]
        return ['dia', 'lil', 'bsr'][k - 6], make(h)
    r, c = onp.nonzero(onp.ones_like(h))
    if k == 0:
        return 'dense', h.copy()
    if k == 1:
        # Explicit zeros.
        return 'coo with explicit zeros', scipy.sparse.coo_matrix((h[r, c], (r, c)), h.shape)
    if k == 2:
        return 'csr with explicit zeros', scipy.sparse.csr_matrix((h.ravel().copy(), onp.tile(onp.arange(m), m), onp.arange(m + 1) * m), h.shape)
    if k == 3:
        # Columns in decreasing order within each row.
        return 'csr with unsorted columns', scipy.sparse.csr_matrix(
            (h[:, ::-1].ravel().copy(), onp.tile(onp.arange(m)[::-1], m), onp.arange(m + 1) * m), h.shape)
    if k == 4:
        # Every entry in two halves, in random order.
        i = rng.permutation(2 * r.size)
        r2, c2 = onp.concatenate([r, r])[i], onp.concatenate([c, c])[i]
        return 'coo with repeated entries', scipy.sparse.coo_matrix((0.5 * h[r2, c2], (r2, c2)), h.shape)
    return 'csc with explicit zeros', scipy.sparse.csc_matrix((h.T.ravel().copy(), onp.tile(onp.arange(m), m), onp.arange(m + 1) * m), h.shape)


# ---------------------------------------------------------------- C10

prop('C10', rule='every parameter kind in rotation with random smooth functions of value, vector, free vector and moments; derivatives from autodiff in each mode are compared with spectral derivatives of plain executions',
     required=['reverse gradient', 'reverse hessian', 'forward derivative', 'forward over reverse', 'packing gradient',
               'through free gradient', 'through free hessian', 'moment gradient'],
     assumptions=['as for C07', 'forward mode through the Cholesky factor is not offered by the installed autodiff library and is not claimed'])


def check_modes(ctx, F, x, u, w, r, mag, pre, forward=True, msg='', second=True):
    """F: array -> scalar, executed plainly and under autodiff."""
    d, e = oracles.derivs(lambda t: F(x + t * u), 2, r, mag=mag)
    floor = 1e-10
    G = ctx.call('grad', autograd.grad(F), x)
    ctx.check(pre + ' shape', onp.shape(G) == x.shape, lambda: str(onp.shape(G)))
    names = {'r1': pre + ' gradient', 'r2': pre + ' hessian'}
    oracles.compare(ctx, names['r1'], onp.dot(G, u), d[1], e[1], floor=floor, msg=msg)
    if second:
        want, err = oracles.second_mixed(lambda s, t: F(x + s * u + t * w), r, mag=mag)
        H = ctx.call('hessian', autograd.hessian(F), x)
        oracles.compare(ctx, names['r2'], onp.dot(u, onp.dot(H, w)), want, err, floor=floor, msg=msg)
        oracles.compare(ctx, names['r2'], onp.dot(u, onp.dot(H, u)), d[2], e[2], floor=floor, msg=msg)
    if forward:
        j = autograd.make_jvp(F)(x)(u)[1]
        oracles.compare(ctx, 'forward derivative', j, d[1], e[1], floor=floor, msg=msg)
        if second:
            hv = autograd.make_jvp(autograd.grad(F))(x)(w)[1]
            oracles.compare(ctx, 'forward over reverse', onp.dot(hv, u), want, err, floor=floor, msg=msg)


@scenario('C10', 200)
def through_set_free(ctx):
    rng = ctx.rng
    spec = tree(ctx, 8, big=bool(rng.rand() < 0.3))
    obj = spec.build()
    f = functors.point(rng, spec)
    obj.set_free(f)
    value = spec.get_value(obj)
    fn = functors.Functor(rng, spec, value)
    mag = functors.magnitude(spec, value)

    def F(x):
        obj.set_free(x)
        return fn(obj)

    n = f.size
    check_modes(ctx, F, f, rng.uniform(-1, 1, size=n), rng.uniform(-1, 1, size=n), 0.2, mag, 'reverse',
                forward=fn.forward_ok, msg=spec.describe())


@scenario('C10', 200)
def through_set_vector(ctx):
    rng = ctx.rng
    spec = tree(ctx, 8, big=bool(rng.rand() < 0.3))
    obj = spec.build()
    obj.set_free(functors.point(rng, spec))
    value = spec.get_value(obj)
    v = spec.pack(value)
    fn = functors.Functor(rng, spec, value)
    mag = functors.magnitude(spec, value)
    margin = functors.vec_margin(spec, value)
    wf = rng.randn(spec.free_size)
    obj.set_vector(v)
    f0 = onp.array(obj.get_free())

    def F(x):
        obj.set_vector(x)
        return fn(obj)

    def G(x):
        obj.set_vector(x)
        g = obj.get_free() - f0
        return np.sum(wf * g) + 0.3 * np.sum(g ** 2) + np.sin(np.sum(g))

    u = rng.uniform(-1, 1, size=v.size) * margin
    w = rng.uniform(-1, 1, size=v.size) * margin
    check_modes(ctx, F, v, u, w, 0.1, mag, 'reverse', forward=fn.forward_ok, msg=spec.describe())
    fmag = mag * (1 + onp.max(onp.abs(f0))) * float(onp.max((1 + onp.abs(v)) / margin))
    check_modes(ctx, G, v, u, w, 0.1, fmag, 'through free', forward=not gen._has_matrix(spec),
                msg=spec.describe() + ' through free')


@scenario('C10', 100)
def vector_jacobian(ctx):
    """autodiff of set_free followed by get_vector, and of set_vector followed by get_free."""
    rng = ctx.rng
    spec = tree(ctx, 12)
    obj, ref = spec.build(), spec.build()
    f = functors.point(rng, spec)

    def F(x):
        obj.set_free(x)
        return obj.get_vector()

    def P(x):
        ref.set_free(x)
        return onp.array(ref.get_vector())

    J = ctx.call('jacobian', autograd.jacobian(F), f)
    ctx.check('reverse shape', onp.shape(J) == (spec.vector_size, spec.free_size))
    u = rng.uniform(-1, 1, size=f.size)
    d, e = oracles.derivs(lambda t: P(f + t * u), 1, 0.25, mag=onp.abs(P(f)) + offset_magnitude(spec))
    oracles.compare(ctx, 'reverse gradient', onp.dot(J, u), d[1], e[1], msg=spec.describe())
    jv = autograd.make_jvp(F)(f)(u)[1]
    oracles.compare(ctx, 'forward derivative', jv, d[1], e[1], msg=spec.describe())
    # set_vector then get_vector is the identity map.
    v = P(f)
    I = autograd.jacobian(lambda x: (obj.set_vector(x), obj.get_vector())[1])(v)
    ctx.close('reverse gradient', I, onp.eye(v.size), 1e-13, 'identity ' + spec.describe())


@scenario('C10', 150)
def packing(ctx):
    rng = ctx.rng
    k = gen.small(rng, 4, 7)
    n = k * (k + 1) // 2
    ctx.struct('k={} case {}'.format(k, ctx.index % 5))
    a = rng.randn(k, k)
    v = rng.randn(n) * 0.5
    which = ctx.index % 5
    m0 = gen.rand_posdef(rng, k)
    lb = gen.rand_lb(rng)
    if which == 0:
        F = lambda x: np.sum(a * np.tanh(mat_par.unvectorize_ld_matrix(x)))
        x = v
    elif which == 1:
        F = lambda x: np.sum(a * np.sin(mat_par.unvectorize_symmetric_matrix(x)) ** 2)
        x = v
    elif which == 2:
        c = rng.randn(n)
        F = lambda x: np.sum(c * mat_par.vectorize_ld_matrix(np.reshape(np.sin(x), (k, k))) ** 2)
        x = rng.randn(k * k)
    elif which == 3:
        F = lambda x: np.sum(a * np.tanh(mat_par.unpack_posdef_matrix(x, diag_lb=lb)))
        x = v
    else:
        c = rng.randn(n)
        F = lambda x: np.sum(c * mat_par.pack_posdef_matrix(
            mat_par.unvectorize_symmetric_matrix(x), diag_lb=lb) ** 2)
        x = gen.pack_sym(m0 + lb * onp.eye(k))
    r = 0.1
    sz = 1.
    if which == 4:
        sz = onp.linalg.eigvalsh(m0)[0] / k
    u, w = rng.uniform(-1, 1, size=x.size) * sz, rng.uniform(-1, 1, size=x.size) * sz
    check_modes(ctx, F, x, u, w, r, 50. * (1 + lb), 'packing', forward=which != 4, msg='case {}'.format(which))


@scenario('C10', 100)
def far_points(ctx):
    """Entry by entry, to relative precision, where values touch their bounds."""
    rng = ctx.rng
    spec = far_spec(ctx, False)
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    f = far_free(rng, spec, float(rng.choice([5., 20., 35., 45.])))
    J, H, sc = far_reference(spec, f)
    c = rng.randn(spec.vector_size) / onp.maximum(sc, 1e-30) * 10. ** rng.uniform(-2, 2)
    parts = [] if spec.composite else [('value', lambda: np.reshape(obj.get(), -1))]
    parts.append(('vector', obj.get_vector))
    for name, read in parts:
        def F(x):
            obj.set_free(x)
            return np.sum(c * read())
        msg = '{} {} at {}'.format(spec.describe(), name, f)
        unit = onp.sum(onp.abs(c) * sc)
        G = ctx.call('grad', autograd.grad(F), f)
        size = onp.dot(onp.abs(c), onp.abs(J))
        ctx.close('reverse gradient', G, onp.dot(c, J), 1e-9 * size + 1e-12 * unit * (size > 0), msg)
        K = ctx.call('hessian', autograd.hessian(F), f)
        size = onp.tensordot(onp.abs(c), onp.abs(H), axes=(0, 0))
        ctx.close('reverse hessian', K, onp.tensordot(c, H, axes=(0, 0)), 1e-9 * size + 1e-12 * unit, msg)
        u = rng.uniform(-1, 1, size=f.size)
        j = autograd.make_jvp(F)(f)(u)[1]
        ctx.close('forward derivative', j, onp.dot(onp.dot(c, J), u), 1e-9 * onp.dot(onp.dot(onp.abs(c), onp.abs(J)), onp.abs(u)) + 1e-12 * unit, msg)


@scenario('C10', 120)
def extreme_matrices(ctx):
    """Matrices of any size whose factors have large and small diagonals, entry
    by entry to relative precision."""
    rng = ctx.rng
    k = [1, 1, 2, 3, 4][ctx.index % 5]
    lead = [(), (2,), (2, 1)][rng.randint(3)]
    lb = float(rng.choice([0., 0., 0.5]))
    if lead == ():
        obj = vb.PosDefMatrixParam('m', k, diag_lb=lb)
    elif len(lead) == 1:
        obj = vb.PosDefMatrixParamVector('m', lead[0], k, diag_lb=lb)
    else:
        obj = vb.PosDefMatrixParamArray('m', lead, k, diag_lb=lb)
    ctx.struct('{} of {}'.format(lead, k))
    count, block = int(onp.prod(lead)), k * (k + 1) // 2
    rows, cols = onp.tril_indices(k)
    top = float(rng.choice([4., 9., 14.]))
    f = rng.randn(count, block)
    f[:, rows == cols] = rng.uniform(-top, 0.6 * top, size=(count, k))
    v = rng.uniform(-1, 1, size=(count, block))
    C = rng.randn(count, k, k) * 10. ** rng.uniform(-2, 2)
    x, u = f.ravel(), v.ravel()

    def F(z):
        obj.set_free(z)
        return np.sum(C * np.reshape(obj.get(), (count, k, k)))
    G, gsize, K, ksize, noise = [], [], [], [], []
    for c, fi, vi in zip(C, f, v):
        L, dL = onp.zeros((k, k)), onp.zeros((k, k))
        L[rows, cols] = onp.where(rows == cols, onp.exp(fi), fi)
        e = onp.where(rows == cols, onp.exp(fi), 1.)
        ee = onp.where(rows == cols, onp.exp(fi), 0.)
        dL[rows, cols] = e * vi
        low = lambda m: m[rows, cols]
        S, A = c + c.T, onp.abs(c) + onp.abs(c).T
        G.append(low(onp.dot(S, L)) * e)
        # The diagonal is swapped for its exponential by adding and
        # subtracting, which costs absolute precision.
        slip = 1e-14 * (1 + top) * low(onp.dot(A, 1. + onp.abs(L) + onp.abs(dL))) * (1 + e)
        noise.append(slip)
        gsize.append(low(onp.dot(A, onp.abs(L))) * e)
        K.append(low(onp.dot(S, dL)) * e + low(onp.dot(S, L)) * ee * vi)
        ksize.append(low(onp.dot(A, onp.abs(dL))) * e + low(onp.dot(A, onp.abs(L))) * ee * onp.abs(vi))
    G, gsize, K, ksize, noise = [onp.concatenate(a) for a in (G, gsize, K, ksize, noise)]
    msg = '{} at {}'.format(type(obj).__name__, x)
    ctx.close('reverse gradient', ctx.call('grad', autograd.grad(F), x), G, 1e-12 * gsize + noise, msg)
    ctx.close('reverse hessian', onp.dot(autograd.hessian(F)(x), u), K, 1e-11 * ksize + noise, msg)
    ctx.close('reverse hessian', autograd.hessian_vector_product(F)(x, u), K, 1e-11 * ksize + noise, msg)
    ctx.close('forward derivative', autograd.make_jvp(F)(x)(u)[1], onp.dot(G, u), onp.dot(1e-12 * gsize + noise, onp.abs(u)), msg)


@scenario('C10', 80)
def off_constraint(ctx):
    """Vectors that do not satisfy a linear constraint exactly, read as free
    vectors and as values."""
    rng = ctx.rng
    kind = ['subspace', 'simplex', 'dict'][ctx.index % 3]
    if kind == 'dict':
        spec = gen.DictSpec('d', [gen.rand_leaf(rng, 'a', 'subspace'), gen.rand_leaf(rng, 'b', 'simplex')])
    else:
        spec = gen.rand_leaf(rng, 'p', kind)
    ctx.struct(spec.describe())
    obj = spec.build()
    v = spec.pack(spec.legal(rng))
    margin = functors.vec_margin(spec, spec.unpack(v))
    v = v + margin * rng.uniform(-1, 1, size=v.size) * (0.3 if rng.randint(2) else 1e-4)

    def P(x):
        obj.set_vector(x)
        return obj.get_free()

    u = margin * rng.uniform(-1, 1, size=v.size)
    w = rng.randn(spec.free_size)
    Q = lambda x: np.sum(w * P(x) ** 2)
    mag = 10. * (1 + onp.max(onp.abs(onp.array(P(onp.array(v)))))) * float(onp.max((1 + onp.abs(v)) / margin))
    d, e = oracles.derivs(lambda t: P(v + t * u), 1, 0.2, mag=mag)
    oracles.compare(ctx, 'through free gradient', onp.dot(ctx.call('jacobian', autograd.jacobian(P), v), u), d[1], e[1], msg=spec.describe())
    d, e = oracles.derivs(lambda t: Q(v + t * u), 2, 0.2, mag=mag ** 2)
    oracles.compare(ctx, 'through free hessian', onp.dot(u, onp.dot(autograd.hessian(Q)(v), u)), d[2], e[2], msg=spec.describe())
    # What was set is the value, and its derivative the identity.
    I = autograd.jacobian(lambda x: (obj.set_vector(x), obj.get_vector())[1])(v)
    ctx.close('reverse gradient', I, onp.eye(v.size), 1e-13, 'identity ' + spec.describe())


@scenario('C10', 60)
def nearby(ctx):
    """One parameter object differentiated at points that nearly coincide or
    share one array, against fresh objects."""
    rng = ctx.rng
    spec = tree(ctx, 8, big=False)
    obj = spec.build()
    f = functors.point(rng, spec)
    obj.set_free(f)
    fn = functors.Functor(rng, spec, spec.get_value(obj))

    def through(o):
        def F(x):
            o.set_free(x)
            return fn(o)
        return F
    g = autograd.grad(through(obj))
    for msg, x in nearby_points(rng, f):
        if onp.max(onp.abs(x - f)) > 1.5:
            continue
        want = autograd.grad(through(spec.build()))(onp.array(x))
        ctx.close('reverse gradient', ctx.call('grad', g, x), want, 1e-11 * (1e-3 + onp.abs(want)), spec.describe() + ' ' + msg)


MOMENTS = {
    'mvn': ['e', 'cov', 'e_outer', 'entropy'],
    'uvn': ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy'],
    'uvnvec': ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy'],
    'uvnarr': ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy'],
    'uvnmom': ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp'],
    'mvnarr': ['e', 'e2'],
    'gamma': ['e', 'e_log', 'entropy'],
    'wishart': ['e', 'e_log_det', 'entropy', 'e_inv'],
    'dirichlet': ['e', 'e_log', 'entropy'],
}


@scenario('C10', 150)
def moments(ctx):
    rng = ctx.rng
    kind = gen.DIST_KINDS[ctx.index % len(gen.DIST_KINDS)]
    spec = gen.rand_dist(rng, 'q', kind, big=False)
    names = MOMENTS[kind]
    name = names[rng.randint(len(names))]
    ctx.struct(spec.describe() + '.' + name)
    obj = spec.build()
    f = functors.point(rng, spec).clip(-1, 1)
    if name == 'e_inv':
        k = spec.children[1].k
        f[0] = onp.log(2.5 + rng.rand())  # df exceeds size + 1
    obj.set_free(f)
    m0 = onp.asarray(getattr(obj, name)(), float)
    coef = rng.randn(*m0.shape)
    sc = 1 + onp.max(onp.abs(m0))

    def F(x):
        obj.set_free(x)
        y = getattr(obj, name)() / sc
        return np.sum(coef * y) + 0.5 * np.sum(y) ** 2

    n = f.size
    fwd = name not in ('entropy', 'e_log_det', 'e_log', 'cov', 'e_inv', 'e_outer')
    check_modes(ctx, F, f, rng.uniform(-1, 1, size=n) * 0.5, rng.uniform(-1, 1, size=n) * 0.5, 0.1, 100.,
                'moment', forward=fwd, msg=spec.describe() + '.' + name)


@scenario('C09', 80)
def whole_numbers(ctx):
    """Gradients, Hessians and points given as integers mean the same as
    floats of the same value; closed form for exponentials."""
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    obj = vb.VectorParam('p', n, lb=0.)
    obj.set_vector(rng.uniform(0.5, 2, size=n))
    kinds = [onp.int64, onp.int32, float]
    g = rng.randint(-5, 6, size=n).astype(kinds[rng.randint(3)])
    h = rng.randint(-5, 6, size=(n, n))
    h = (h + h.T).astype(kinds[rng.randint(3)])
    f = rng.randint(-3, 4, size=n).astype(float) if rng.randint(2) else rng.uniform(-3, 3, size=n)
    form = rng.randint(4)
    harg = [h.copy(), scipy.sparse.csr_matrix(h), scipy.sparse.coo_matrix(h), scipy.sparse.csc_matrix(h)][form]
    ctx.struct('{} {} {} form {}'.format(n, g.dtype, h.dtype, form))
    garg = g.copy()
    F = dense(ctx.call('convert', par_lib.convert_vector_to_free_hessian, obj, f.copy(), garg, harg))
    v = onp.exp(f)
    want = onp.diag(v * g) + v[:, None] * h * v[None, :]
    ctx.close('converted hessian', F, want, 1e-12 * (onp.abs(onp.diag(v * g)) + v[:, None] * onp.abs(h) * v[None, :]) + 1e-300,
              'at {} gradient {}'.format(f, g))
    ctx.same('arguments unchanged', garg, g)
    ctx.same('arguments unchanged', dense(harg), h)
