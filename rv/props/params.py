"""C01-C05: representations, legality, sizes and refusals."""
import numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.MatrixParameters as mat_par

from core import scenario, prop, Skip
import gen
from gen import INF, EPS


def pollute(ctx, spec, obj):
    """A short random history before the check proper."""
    rng = ctx.rng
    for _ in range(rng.randint(0, 4)):
        k = rng.randint(6)
        if k == 0:
            f = gen.rand_free(rng, spec)
            ctx.call('set_free', obj.set_free, f)
        elif k == 1:
            v = spec.legal(rng, hard=bool(rng.randint(2)))
            spec.set_value(obj, v)
            ctx.ev('set value', spec.pack(v))
        elif k == 2:
            v = spec.pack(spec.legal(rng))
            ctx.call('set_vector', obj.set_vector, v)
        elif k == 3:
            ctx.call('get_vector', obj.get_vector)
        elif k == 4:
            ctx.call('free_to_vector', obj.free_to_vector, gen.rand_free(rng, spec))
        else:
            ctx.call('get_free', obj.get_free)


def make(ctx, **kw):
    spec = gen.rand_spec(ctx.rng, ctx, index=ctx.index, **kw)
    obj = spec.build()
    ctx.ev('construct ' + spec.describe())
    pollute(ctx, spec, obj)
    return spec, obj


# ---------------------------------------------------------------- C01

prop('C01', rule='every parameter kind (8 leaf kinds, 9 distribution objects, random nested collections) in rotation with random sizes, bounds and prior history; a case counts when a round trip was compared',
     required=['free->value->free', 'value->free->value', 'free->value->free far'],
     assumptions=['rounding tolerances are computed from the conditioning of the constraint at the observed value'])


def check_free_roundtrip(ctx, spec, obj, f, monitor):
    rng = ctx.rng
    ctx.call('set_free', obj.set_free, gen.layout(rng, f))
    value = spec.get_value(obj)
    tol = spec.free_tol(value, f)
    g = ctx.call('get_free', obj.get_free)
    ctx.check('free vector is plain', isinstance(g, np.ndarray) and g.dtype != object, repr(type(g)))
    ok = tol < 0.5
    if not np.all(ok):
        ctx.abandon('rounding swamps the free value')
        if g.shape == f.shape:
            g, f, tol = g[ok], f[ok], tol[ok]
    ctx.close(monitor, g, f, tol, spec.describe())
    return value


@scenario('C01', 600)
def free_roundtrip(ctx):
    spec, obj = make(ctx)
    for _ in range(3):
        f = gen.rand_free(ctx.rng, spec)
        if ctx.rng.rand() < 0.1:
            f = np.round(f)
        value = check_free_roundtrip(ctx, spec, obj, f, 'free->value->free')
        # Idempotent: the free vector read back restores the same value.
        obj.set_free(np.array(obj.get_free()))
        spec.close(ctx, 'value->free->value', spec.get_value(obj), value, spec.value_tol(value))


@scenario('C01', 250)
def free_roundtrip_far(ctx):
    """Single bounded parameters at large free values."""
    rng = ctx.rng
    spec = gen.rand_leaf(rng, 'p', ['scalar', 'vector', 'array', 'simplex', 'subspace'][ctx.index % 5])
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    f = rng.uniform(-1, 1, size=spec.free_size) * rng.choice([8., 15., 25., 33.])
    if rng.rand() < 0.3 and hasattr(spec, 'lb') and not spec.linear:
        # Far out on a side where the value has room for it.
        f = rng.uniform(0, 1, size=spec.free_size) * rng.choice([50., 100., 300., 600.])
        if spec.ub < INF:
            f = -f
    check_free_roundtrip(ctx, spec, obj, f, 'free->value->free far')


@scenario('C01', 600)
def value_roundtrip(ctx):
    spec, obj = make(ctx)
    rng = ctx.rng
    for _ in range(3):
        value = spec.legal(rng, hard=rng.rand() < 0.4)
        spec.set_value(obj, value)
        ctx.ev('set value', spec.pack(value))
        f = np.array(ctx.call('get_free', obj.get_free))
        ctx.check('free vector finite', f.shape == (spec.free_size,) and bool(np.all(np.isfinite(f))),
                  lambda: spec.describe() + ' ' + repr(f))
        # Into the same object after other use, and into a fresh one.
        other = spec.build()
        if rng.rand() < 0.5:
            pollute(ctx, spec, obj)
        for o in (obj, other):
            o.set_free(f)
            spec.close(ctx, 'value->free->value', spec.get_value(o), value, spec.value_tol(value))


@scenario('C01', 40, 600)
def large_sizes(ctx):
    rng = ctx.rng
    k = ctx.index % 6
    if k == 0:
        spec = gen.VectorSpec('p', int(rng.randint(30, 150)), *gen.rand_bounds(rng))
    elif k == 1:
        spec = gen.ArraySpec('p', (int(rng.randint(5, 9)), int(rng.randint(2, 9)), int(rng.randint(1, 4))), *gen.rand_bounds(rng))
    elif k == 2:
        spec = gen.PosDefSpec('p', int(rng.randint(8, 22)), gen.rand_lb(rng))
    elif k == 3:
        spec = gen.PosDefArraySpec('p', (int(rng.randint(2, 5)), int(rng.randint(2, 5)), 2), 2, gen.rand_lb(rng))
    elif k == 4:
        spec = gen.SimplexSpec('p', int(rng.randint(5, 30)), int(rng.randint(2, 20)))
    else:
        spec = gen.PosDefVectorSpec('p', int(rng.randint(6, 30)), int(rng.randint(1, 4)), gen.rand_lb(rng))
    ctx.struct(spec.describe())
    obj = spec.build()
    f = gen.rand_free(rng, spec, 0.7 if k != 2 else 0.25)
    value = check_free_roundtrip(ctx, spec, obj, f, 'free->value->free')
    obj.set_free(np.array(obj.get_free()))
    spec.close(ctx, 'value->free->value', spec.get_value(obj), value, spec.value_tol(value))


# ---------------------------------------------------------------- C02

prop('C02', rule='every parameter kind in rotation, random values written as values and as vectors in several memory layouts and number types; a case counts when packed numbers were compared exactly',
     required=['value->vector exact', 'vector->value exact', 'vector->vector exact',
               'value->value exact', 'matrix packing order', 'index map'])


def any_vector(rng, spec):
    """A vector that encodes some value, legal or not, exactly."""
    k = rng.randint(4)
    if k == 0:
        return spec.pack(spec.legal(rng, True))
    if k == 1:
        return np.arange(spec.vector_size, dtype=float) + float(rng.randint(0, 3))
    if k == 2:
        return rng.randn(spec.vector_size) * 10. ** rng.uniform(-6, 6)
    return np.round(rng.randn(spec.vector_size) * 5)


def set_value_layouts(ctx, spec, obj, value):
    rng = ctx.rng
    if spec.composite:
        for c in spec.children:
            set_value_layouts(ctx, c, obj[c.name], value[c.name])
    elif spec.kind == 'scalar':
        form = rng.randint(4)
        obj.set([float(value), np.float64(value), np.array([value]), np.array(value)][form])
    else:
        obj.set(gen.layout(rng, value))


@scenario('C02', 600)
def packing(ctx):
    rng = ctx.rng
    spec, obj = make(ctx)
    for _ in range(3):
        vec = any_vector(rng, spec)
        value = spec.unpack(vec)
        if rng.randint(2):
            set_value_layouts(ctx, spec, obj, value)
            ctx.ev('set value', vec)
            spec.same(ctx, 'value->value exact', spec.get_value(obj), value)
            ctx.same('value->vector exact', ctx.call('get_vector', obj.get_vector), vec, spec.describe())
        else:
            arg = gen.layout(rng, vec)
            if np.all(vec == np.round(vec)) and rng.randint(2) and np.max(np.abs(vec)) < 1e6:
                arg = arg.astype(int)
            ctx.call('set_vector', obj.set_vector, arg)
            spec.same(ctx, 'vector->value exact', spec.get_value(obj), value)
            ctx.same('vector->vector exact', ctx.call('get_vector', obj.get_vector), vec, spec.describe())
        # Reading does not disturb.
        spec.same(ctx, 'value->value exact', spec.get_value(obj), value)


INT_TYPES = [('int8', 127), ('int16', 32767), ('int32', 2 ** 31 - 1), ('int64', 2 ** 53), ('uint8', 255),
             ('uint16', 65535), ('uint32', 2 ** 32 - 1), ('uint64', 2 ** 53)]


@scenario('C02', 200)
def number_types(ctx):
    """Every numpy number type, over the whole range it shares with doubles."""
    rng = ctx.rng
    spec, obj = make(ctx)
    for _ in range(3):
        n = spec.vector_size
        k = rng.randint(len(INT_TYPES) + 4)
        if k < len(INT_TYPES):
            name, top = INT_TYPES[k]
            lo = 0 if name[0] == 'u' else -top
            vec = np.array([int(rng.uniform(lo, top)) for _ in range(n)], dtype=name)
            if rng.rand() < 0.5:
                vec[rng.randint(n)] = top
        elif k == len(INT_TYPES):
            name, vec = 'float32', (rng.randn(n) * 10. ** rng.uniform(-20, 20, size=n)).astype('float32')
        elif k == len(INT_TYPES) + 1:
            name, vec = 'float16', rng.uniform(-1000, 1000, size=n).astype('float16')
        elif k == len(INT_TYPES) + 2:
            name, vec = 'bool', rng.rand(n) < 0.5
        else:
            name, vec = 'float64', rng.randn(n) * 10. ** rng.uniform(-290, 290, size=n)
        ctx.feat('number type ' + name)
        want = vec.astype(float)
        value = spec.unpack(want)
        ctx.call('set_vector ' + name, obj.set_vector, gen.layout(rng, vec))
        spec.same(ctx, 'vector->value exact', spec.get_value(obj), value, spec.describe() + ' from ' + name)
        ctx.same('vector->vector exact', obj.get_vector(), want, spec.describe() + ' from ' + name)
        # The same numbers as a value, element by element.
        if not spec.composite and spec.kind != 'scalar':
            typed = np.asarray(value).astype(vec.dtype)
            spec.set_value(obj, spec.legal(rng))
            pollute(ctx, spec, obj)
            ctx.call('set ' + name, obj.set, gen.layout(rng, typed))
            spec.same(ctx, 'value->value exact', np.asarray(spec.get_value(obj), float), value, spec.describe() + ' from ' + name)
            ctx.same('value->vector exact', np.asarray(obj.get_vector(), float), want, spec.describe() + ' from ' + name)


@scenario('C02', 250)
def index_map(ctx):
    """Position k of the vector lands where the documented order says."""
    rng = ctx.rng
    spec, obj = make(ctx)
    vec = np.arange(spec.vector_size, dtype=float)
    ctx.call('set_vector', obj.set_vector, vec)
    spec.same(ctx, 'index map', spec.get_value(obj), spec.unpack(vec))
    k = rng.randint(spec.vector_size)
    base = any_vector(rng, spec)
    bumped = base.copy()
    bumped[k] = base[k] + 1.
    obj.set_vector(base)
    before = spec.get_value(obj)
    obj.set_vector(bumped)
    spec.same(ctx, 'index map', spec.get_value(obj), spec.unpack(bumped))
    ctx.same('vector->vector exact', obj.get_vector(), bumped)
    spec.same(ctx, 'value->value exact', before, spec.unpack(base))
    # At construction.
    if not spec.composite:
        o = spec.build(val=spec.unpack(base) if spec.kind != 'scalar' else float(base[0]))
        ctx.same('value->vector exact', o.get_vector(), base, 'constructed with a value')


@scenario('C02', 150)
def matrix_packing(ctx):
    rng = ctx.rng
    k = gen.small(rng, 6, 30)
    ctx.struct('k={}'.format(k))
    n = k * (k + 1) // 2
    v = rng.randn(n)
    m = rng.randn(k, k)
    got = ctx.call('vectorize', mat_par.vectorize_ld_matrix, gen.layout(rng, m))
    ctx.same('matrix packing order', got, gen.pack_sym(m))
    lower = np.tril(gen.unpack_sym(v))
    ctx.same('matrix packing order', ctx.call('unvectorize', mat_par.unvectorize_ld_matrix, gen.layout(rng, v)), lower)
    ctx.same('matrix packing order', mat_par.unvectorize_symmetric_matrix(v), gen.unpack_sym(v))
    ctx.same('matrix packing order', mat_par.vectorize_ld_matrix(mat_par.unvectorize_ld_matrix(v)), v)
    i, j = rng.randint(k), rng.randint(k)
    want = gen.tril_pairs(k).index((max(i, j), min(i, j)))
    ctx.check('matrix packing order', mat_par.SymIndex(i, j) == want, 'index of {}'.format((i, j)))
    bad = n + 1
    while int(round((np.sqrt(8 * bad + 1) - 1) / 2)) * (int(round((np.sqrt(8 * bad + 1) - 1) / 2)) + 1) // 2 == bad:
        bad += 1
    ctx.refused('impossible sizes refused', lambda: mat_par.unvectorize_ld_matrix(np.zeros(bad)), 'size {}'.format(bad))
    ctx.refused('impossible sizes refused', lambda: mat_par.vectorize_ld_matrix(np.zeros((k, k + 1))), 'non-square')


# ---------------------------------------------------------------- C03

prop('C03', rule='every parameter kind in rotation; default construction with random admissible constructor arguments, and random free vectors up to magnitude 30; a case counts when a value was tested against its constraints',
     required=['free vector gives a legal value', 'default is legal', 'default has a finite free vector', 'accepted'],
     assumptions=['bounds are tested exactly, the other constraints with a slack of rounding'])


@scenario('C03', 600)
def legal_after_free(ctx):
    rng = ctx.rng
    spec, obj = make(ctx)
    for _ in range(4):
        if gen._has_matrix(spec):
            f = gen.rand_free(rng, spec)
        else:
            f = rng.uniform(-1, 1, size=spec.free_size) * rng.choice([1., 5., 15., 30.])
        ctx.call('set_free', obj.set_free, gen.layout(rng, f))
        v = spec.get_value(obj)
        p = spec.legal_problem(v)
        ctx.check('free vector gives a legal value', p is None,
                  lambda: '{}: {} at free {}'.format(spec.describe(), p, f))
        if not gen._has_matrix(spec):
            accepted(ctx, spec, obj)
        if not gen._has_matrix(spec) and np.max(np.abs(f)) <= 12:
            for leaf, o in zip([l for _, l in spec.leaves()], spec.leaf_objs(obj)):
                if hasattr(leaf, 'lb') and leaf.ub - leaf.lb > 1e-2 and \
                        max([abs(b) for b in (leaf.lb, leaf.ub) if abs(b) < INF] + [1.]) < 1e4:
                    x = np.asarray(leaf.get_value(o), float)
                    ctx.check('strictly inside at moderate free values',
                              bool(np.all(x > leaf.lb) and np.all(x < leaf.ub)),
                              leaf.describe())


@scenario('C03', 250)
def legal_far(ctx):
    """Free values far apart from each other, and far from zero, in parameters
    with elementwise bounds and in simplexes."""
    rng = ctx.rng
    spec = gen.rand_leaf(rng, 'p', ['scalar', 'vector', 'array', 'simplex', 'simplex', 'subspace'][ctx.index % 6])
    ctx.struct(spec.describe())
    obj = spec.build()
    pollute(ctx, spec, obj)
    for _ in range(3):
        top = float(rng.choice([30., 100., 300.]))
        if spec.kind == 'simplex':
            # Rows at very different levels, and entries of a row far apart.
            top = float(rng.choice([30., 300., 700., 2000.]))
            f = rng.randn(spec.shape[0], spec.shape[1] - 1) * float(rng.choice([0.5, 5., top / 4]))
            f = (f + rng.uniform(-top, top, size=(spec.shape[0], 1))).ravel()
        else:
            f = rng.uniform(-top, top, size=spec.free_size)
            f[rng.rand(f.size) < 0.3] *= 1e-3
        ctx.call('set_free', obj.set_free, gen.layout(rng, f))
        v = spec.get_value(obj)
        msg = lambda: '{}: {} at free {}'.format(spec.describe(), v, f)
        if spec.kind == 'simplex':
            rows = np.hstack([np.zeros((spec.shape[0], 1)), f.reshape(spec.shape[0], -1)])
            ok = np.shape(v) == spec.shape and np.all(np.isfinite(v)) and np.all(v >= 0) and \
                np.all(np.abs(np.sum(v, axis=1) - 1) < 1e-11)
            ctx.check('free vector gives a legal value', bool(ok), msg)
            # Positive wherever a double can hold it.
            gap = rows - np.max(rows, axis=1, keepdims=True)
            ctx.check('free vector gives a legal value', bool(np.all(v[gap > -600.] > 0)), msg)
        else:
            p = spec.legal_problem(v)
            ctx.check('free vector gives a legal value', p is None, msg)
            accepted(ctx, spec, obj)


def accepted(ctx, spec, obj):
    """A legal value is not refused, though one on its bound has an infinite
    free representation."""
    with np.errstate(all='ignore'):
        back = ctx.call('get_free', obj.get_free)
    ctx.check('accepted', np.shape(back) == (spec.free_size,) and not np.any(np.isnan(back)), lambda: '{}: {}'.format(spec.describe(), back))


@scenario('C03', 300)
def narrow_and_offset(ctx):
    """The ends of two-sided ranges at every place and width, where rounding
    can take a value past a bound."""
    rng = ctx.rng
    loc = rng.randn() * 10. ** rng.uniform(-3, 4)
    width = 10. ** rng.uniform(-9, 5)
    lb, ub = float(loc), float(loc + width)
    if rng.rand() < 0.5:
        lb, ub = [float(x) + 0. for x in np.sort(np.round(rng.uniform(-2, 2, size=2), int(rng.randint(1, 4))))]
    if not ub - lb > 1e-12 * max(abs(lb), abs(ub)):
        ub = lb + 1.
    n = int(rng.randint(1, 6))
    spec = [gen.ScalarSpec('p', lb, ub), gen.VectorSpec('p', n, lb, ub), gen.ArraySpec('p', (n, 2), lb, ub)][ctx.index % 3]
    ctx.struct(spec.describe())
    obj = spec.build()
    for _ in range(6):
        top = float(rng.choice([1., 30., 38., 50., 300.]))
        f = rng.uniform(-top, top, size=spec.free_size)
        if rng.rand() < 0.3:
            f = np.sign(f) * rng.uniform(33., 45.)
        ctx.call('set_free', obj.set_free, f)
        v = spec.get_value(obj)
        p = spec.legal_problem(v)
        ctx.check('free vector gives a legal value', p is None, lambda: '{}: {} at free {}'.format(spec.describe(), p, f))
        accepted(ctx, spec, obj)


@scenario('C03', 120)
def tiny_bounds(ctx):
    """Lower bounds of every size, down to the smallest, with values that
    come close to them."""
    rng = ctx.rng
    lb = float(10. ** rng.uniform(-1, 1) * 10. ** rng.choice([-300., -100., -30., -14., -11., -8., -5., 3.]))
    k = int(rng.randint(1, 4))
    leaf = ctx.index % 4
    if leaf < 3:
        spec = [gen.PosDefSpec('m', k, lb), gen.PosDefVectorSpec('m', 2, k, lb), gen.PosDefArraySpec('m', (1, 2), k, lb)][leaf]
    else:
        spec = [gen.ScalarSpec('m', lb), gen.VectorSpec('m', 3, lb=lb), gen.ArraySpec('m', (2, 2), lb=lb),
                gen.VectorSpec('m', 3, lb=-lb, ub=lb)][rng.randint(4)]
    ctx.struct(spec.describe().split('[')[0] + ' 1e{}'.format(int(np.log10(lb))))
    obj = spec.build()
    for _ in range(3):
        f = rng.uniform(-1, 1, size=spec.free_size) * float(rng.choice([1., 15., 30.]))
        if leaf < 3:
            f = np.where(rng.rand(f.size) < 0.5, -np.abs(f), f)
        ctx.call('set_free', obj.set_free, f)
        v = np.asarray(spec.get_value(obj), float)
        if leaf < 3:
            d = np.diagonal(v, axis1=-1, axis2=-2)
            ok = np.all(np.isfinite(v)) and np.all(d >= lb * (1 - 1e-12)) and np.all(v == np.swapaxes(v, -1, -2))
        else:
            ok = spec.legal_problem(v) is None
        ctx.check('free vector gives a legal value', bool(ok), lambda: '{}: {} at free {}'.format(spec.describe(), v, f))


@scenario('C03', 600)
def legal_default(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index)
    if spec.kind in ('vector', 'array', 'scalar') and rng.rand() < 0.6:
        # Bounds that are hard for a default.
        loc = float(rng.choice([-1e4, -50., -3., -1., 0., 0.3, 1., 2., 50., 1e4]))
        width = float(rng.choice([1e-4, 1e-2, 0.4, 1., 1.9, 3., 20., 1e5]))
        k = rng.randint(3)
        spec.lb, spec.ub = [(loc, loc + width), (loc, INF), (-INF, loc)][k]
        ctx.struct(spec.describe())
    obj = ctx.call('construct', spec.build)
    v = spec.get_value(obj)
    p = spec.legal_problem(v)
    ctx.check('default is legal', p is None, lambda: '{}: {}'.format(spec.describe(), p))
    f = ctx.call('get_free', obj.get_free)
    ctx.check('default has a finite free vector',
              np.shape(f) == (spec.free_size,) and bool(np.all(np.isfinite(f))),
              lambda: '{}: {}'.format(spec.describe(), f))
    vec = obj.get_vector()
    ctx.same('default vector', vec, spec.pack(v))
    obj.set_free(np.array(f))
    ctx.check('free vector gives a legal value', spec.legal_problem(spec.get_value(obj)) is None, spec.describe())


@scenario('C03', 60)
def bare_default(ctx):
    """Constructors called with as few arguments as possible."""
    k = ctx.index % 17
    specs = [gen.ScalarSpec(''), gen.VectorSpec('', 1), gen.ArraySpec('', (1, 1)), gen.PosDefSpec('', 2),
             gen.PosDefVectorSpec('', 1, 2), gen.PosDefArraySpec('', (1,), 2), gen.SimplexSpec('', 1, 2),
             gen.SubspaceSpec('', 3), gen.mvn_spec('', 2), gen.uvn_spec(''), gen.uvnvec_spec('', 2),
             gen.uvnarr_spec('', (1, 1)), gen.uvnmom_spec('', (2, 3)), gen.mvnarr_spec('', (2, 2)),
             gen.gamma_spec(''), gen.wishart_spec('', 2), gen.dirichlet_spec('', (1, 2))]
    builders = [vb.ScalarParam, vb.VectorParam, vb.ArrayParam, vb.PosDefMatrixParam,
                vb.PosDefMatrixParamVector, vb.PosDefMatrixParamArray, vb.SimplexParam,
                vb.SubspaceVectorParam, vb.MVNParam, vb.UVNParam, vb.UVNParamVector, vb.UVNParamArray,
                vb.UVNMomentParamArray, vb.MVNArray, vb.GammaParam, vb.WishartParam, vb.DirichletParamArray]
    spec, builder = specs[k], builders[k]
    ctx.struct(spec.describe())
    obj = ctx.call('construct bare', builder)
    ctx.check('default is legal', spec.legal_problem(spec.get_value(obj)) is None, spec.describe())
    f = obj.get_free()
    ctx.check('default has a finite free vector', np.shape(f) == (spec.free_size,) and bool(np.all(np.isfinite(f))), spec.describe())


# ---------------------------------------------------------------- C04

prop('C04', rule='every parameter kind in rotation, each offered inputs of many wrong sizes and shapes after a random history; a case counts when sizes were compared and at least one call was refused or accepted as specified',
     required=['declared sizes', 'wrong size refused', 'wrong shape refused', 'state unchanged after refusal',
               'asymmetric matrix refused'],
     assumptions=['any ordinary exception counts as a refusal'])


def wrong_shapes(rng, spec):
    """Arrays that are not of the declared value shape."""
    s = tuple(spec.shape)
    out = []
    if spec.kind in ('vector', 'subspace'):
        n = s[0]
        cand = [(n + 1,), (max(n - 1, 0),), (2 * n,), (0,), (n, n + 1)]
        if spec.kind == 'subspace':
            cand.append((spec.free_size,))
        out = [c for c in cand if int(np.prod(c)) != n]
    else:
        out = [s + (1,), (1,) + s, (int(np.prod(s)),), s[::-1], s[:-1] + (s[-1] + 1,),
               (s[0] + 1,) + s[1:], s[:-1], s[1:], (spec.vector_size,), (1,) * len(s),
               s[:-1] + (1,), (1,) + s[1:]]
        if len(s) >= 2 and s[-1] > 1:
            out.append(s[:-1] + (s[-1] - 1,))
        if len(s) >= 2 and np.prod(s) % 2 == 0:
            out.append((2, int(np.prod(s)) // 2))
        if spec.kind.startswith('posdef'):
            k = spec.k
            out += [(k, k), s[:-2] + (k + 1, k + 1), (k + 1, k + 1), s[:-2] + (k, k + 1),
                    s[:-2] + (1, 1), s[-2:] + s[:-2]]
        out = [c for c in out if c != s]
    i = rng.permutation(len(out))[:5]
    return [out[j] for j in i]


@scenario('C04', 500)
def sizes_and_refusals(ctx):
    rng = ctx.rng
    spec, obj = make(ctx)
    for _ in range(2):
        f, v = ctx.call('get_free', obj.get_free), ctx.call('get_vector', obj.get_vector)
        ctx.check('declared sizes', np.shape(f) == (spec.free_size,) and obj.free_size() == spec.free_size,
                  lambda: '{}: free size {} declared {} implied {}'.format(spec.describe(), np.shape(f), obj.free_size(), spec.free_size))
        ctx.check('declared sizes', np.shape(v) == (spec.vector_size,) and obj.vector_size() == spec.vector_size,
                  lambda: '{}: vector size {} declared {} implied {}'.format(spec.describe(), np.shape(v), obj.vector_size(), spec.vector_size))
        ctx.check('declared sizes', spec.shape_ok(obj), spec.describe() + ' size/length/shape/dim')
        for leaf, o in zip([l for _, l in spec.leaves()], spec.leaf_objs(obj)):
            ctx.check('declared sizes', o.free_size() == leaf.free_size and o.vector_size() == leaf.vector_size, leaf.describe())
        pollute(ctx, spec, obj)
    obj.set_free(gen.rand_free(rng, spec))
    before_val, before_vec = spec.get_value(obj), np.array(obj.get_vector())

    def unchanged(msg):
        spec.same(ctx, 'state unchanged after refusal', spec.get_value(obj), before_val, msg)
        ctx.same('state unchanged after refusal', obj.get_vector(), before_vec, msg)

    if spec.kind != 'scalar':
        for n, setter, nm in ((spec.free_size, obj.set_free, 'set_free'), (spec.vector_size, obj.set_vector, 'set_vector')):
            sizes = {n + 1, n - 1, 2 * n, 0, 1, n + 2, spec.free_size, spec.vector_size, n * n, int(rng.randint(0, 3 * n + 3))}
            sizes = sorted(x for x in sizes if x >= 0 and x != n)
            for i in rng.permutation(len(sizes))[:4]:
                bad = rng.randn(sizes[i]) * 0.3
                ctx.refused('wrong size refused', lambda: setter(bad), '{}.{} with size {} instead of {}'.format(spec.describe(), nm, sizes[i], n))
                unchanged('{} after refused {}'.format(spec.describe(), nm))
            # More than one dimension, with the right length along one of them.
            for shp in [(n, 2), (n, n), (2, n), (n, 1 + n), (n, 2, 1), (0, n)][rng.randint(3)::3]:
                if int(np.prod(shp)) == n:
                    continue
                if shp[0] == n and spec.kind in ('posdefvec', 'posdefarr') and setter == obj.set_vector:
                    # These count the rows only; what indexing such an array
                    # gives is not a vector of the wrong length.
                    continue
                bad = np.abs(rng.randn(*shp)) * 0.3 + 0.1
                if rng.randint(2):
                    bad = np.full(shp, 0.5)
                ctx.refused('wrong size refused', lambda: setter(bad), '{}.{} with shape {} instead of {} numbers'.format(spec.describe(), nm, shp, n))
                unchanged('{} after refused {} with shape {}'.format(spec.describe(), nm, shp))
        n = spec.free_size
        bad = rng.randn(n + 1 + rng.randint(2))
        ctx.refused('wrong size refused', lambda: obj.free_to_vector(bad), spec.describe() + '.free_to_vector')
        unchanged('after refused free_to_vector')
    # Wrong shapes offered to leaves, on their own and as members.
    leaves = list(zip([l for _, l in spec.leaves()], spec.leaf_objs(obj)))
    for i in rng.permutation(len(leaves))[:3]:
        leaf, o = leaves[i]
        if leaf.kind == 'scalar':
            continue
        for shp in wrong_shapes(rng, leaf):
            bad = np.abs(rng.randn(*shp)) + 0.1
            if rng.randint(2):
                bad = np.full(shp, 0.5)
            ctx.refused('wrong shape refused', lambda: o.set(bad), '{}.set with shape {}'.format(leaf.describe(), shp))
            unchanged('after refused set')
        shp = wrong_shapes(rng, leaf)
        if shp:
            ctx.refused('wrong shape refused', lambda: leaf.build(val=np.full(shp[0], 0.5)), '{} constructed with shape {}'.format(leaf.describe(), shp[0]))
    # Still usable.
    obj.set_vector(before_vec)
    unchanged('after use')


@scenario('C04', 120)
def asymmetric(ctx):
    rng = ctx.rng
    k = 1 + gen.small(rng, 5, 12)
    spec = gen.PosDefSpec('m', k, gen.rand_lb(rng))
    ctx.struct(spec.describe())
    owner = obj = spec.build()
    if rng.randint(2):
        owner = vb.ModelParamsDict('d')
        owner.push_param(vb.ScalarParam('s'))
        owner.push_param(obj)
    good = spec.legal(rng)
    obj.set(good)
    bad = good.copy()
    i = rng.randint(1, k)
    j = rng.randint(0, i)
    if rng.randint(2):
        i, j = j, i
    bad[i, j] += float(rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 0.1, 10.])) * rng.choice([-1, 1])
    if bad[i, j] == bad[j, i]:
        raise Skip('perturbation lost')
    before = np.array(obj.get())
    if owner is obj or rng.randint(2):
        ctx.refused('asymmetric matrix refused', lambda: obj.set(bad), 'entry {}'.format((i, j)))
    else:
        def assign():
            owner.values['m'] = bad
        ctx.refused('asymmetric matrix refused', assign, 'entry {}'.format((i, j)))
    ctx.same('state unchanged after refusal', obj.get(), before)
    ctx.refused('asymmetric matrix refused', lambda: spec.build(val=bad), 'at construction')
    obj.set(good)
    ctx.same('legal value accepted', obj.get(), good)


# ---------------------------------------------------------------- C05

prop('C05', rule='bounded and matrix parameters, alone and nested, with a violation of random size at a random position; a case counts when a free representation was refused or granted as specified',
     required=['out of bounds refused', 'indefinite matrix refused', 'inverted bounds refused',
               'negative diagonal bound refused', 'inside is accepted'])


def nest(rng, leaf_spec):
    """The leaf on its own or as a member somewhere in a collection."""
    if rng.rand() < 0.5:
        o = leaf_spec.build()
        return o, o
    kids = [gen.rand_leaf(rng, 'k{}'.format(i), big=False, wide=False) for i in range(rng.randint(1, 4))]
    pos = rng.randint(len(kids) + 1)
    kids.insert(pos, leaf_spec)
    spec = gen.DictSpec('d', kids)
    own = spec
    if rng.rand() < 0.4:
        own = gen.DictSpec('outer', [spec, gen.ScalarSpec('z')])
    o = own.build()
    return o, (o if own is spec else o['d'])[leaf_spec.name]


@scenario('C05', 600)
def out_of_bounds(ctx):
    rng = ctx.rng
    while True:
        kind = ['scalar', 'vector', 'array'][ctx.index % 3]
        leaf = gen.large_spec(rng, 'p', kind) if kind != 'scalar' and ctx.index % 20 < 3 else gen.rand_leaf(rng, 'p', kind)
        if leaf.lb > -INF or leaf.ub < INF or rng.rand() < 0.1:
            break
    ctx.struct(leaf.describe())
    owner, obj = nest(rng, leaf)
    good = leaf.legal(rng, hard=bool(rng.randint(2)))
    leaf.set_value(obj, good)
    f = ctx.call('get_free', owner.get_free)
    ctx.check('inside is accepted', bool(np.all(np.isfinite(f))), leaf.describe())
    vec = leaf.pack(good)
    for _ in range(4):
        bad = vec.copy()
        i = rng.randint(bad.size)
        sides = [s for s in ('lb', 'ub') if abs(getattr(leaf, s)) < INF] + ['nan']
        side = sides[rng.randint(len(sides))]
        mag = 10. ** rng.uniform(-10, 5)
        if side == 'nan':
            bad[i] = np.nan
        else:
            b = float(getattr(leaf, side))
            sgn = -1 if side == 'lb' else 1
            step = rng.randint(4)
            if step == 0:
                bad[i] = np.nextafter(b, sgn * INF)
            elif step == 1:
                bad[i] = sgn * INF
            else:
                bad[i] = b + sgn * max(mag, 4 * EPS * abs(b))
        how = rng.randint(2)
        if how:
            obj.set_vector(bad if leaf.kind != 'scalar' else bad[0])
        else:
            leaf.set_value(obj, leaf.unpack(bad))
        ctx.ev('set illegal', bad)
        e = ctx.refused('out of bounds refused', owner.get_free,
                        '{} with {!r} at {}'.format(leaf.describe(), bad[i], i))
        # It recovers.
        leaf.set_value(obj, good)
        g = owner.get_free()
        ctx.same('inside is accepted', g, f)


@scenario('C05', 300)
def indefinite(ctx):
    rng = ctx.rng
    kind = ['posdef', 'posdefvec', 'posdefarr'][ctx.index % 3]
    leaf = gen.large_spec(rng, 'p', kind) if ctx.index % 20 < 3 else gen.rand_leaf(rng, 'p', kind)
    ctx.struct(leaf.describe())
    owner, obj = nest(rng, leaf)
    good = leaf.legal(rng)
    leaf.set_value(obj, good)
    f = ctx.call('get_free', owner.get_free)
    ctx.check('inside is accepted', bool(np.all(np.isfinite(f))), leaf.describe())
    for _ in range(3):
        bad = np.array(good)
        ind = () if leaf.kind == 'posdef' else tuple(rng.randint(n) for n in leaf.lead)
        m = bad[ind] - leaf.diag_lb * np.eye(leaf.k)
        kind = rng.randint(4)
        if kind == 0:
            # Shift the smallest eigenvalue clearly below the bound.
            ev = np.linalg.eigvalsh(m)
            gap = (0.01 + 2. * rng.rand()) * (1. + ev[-1])
            m = m - (ev[0] + gap) * np.eye(leaf.k)
        elif kind == 1:
            m = -m
        elif kind == 2:
            i = rng.randint(leaf.k)
            m[i, i] = -0.5 - rng.rand()
        else:
            # Positive definite, but not above the diagonal bound.
            if leaf.diag_lb == 0:
                m = np.zeros_like(m) - 1e-3 * np.eye(leaf.k)
            else:
                m = m * 0 - 0.5 * leaf.diag_lb * np.eye(leaf.k)
        m = 0.5 * (m + m.T) + leaf.diag_lb * np.eye(leaf.k)
        bad[ind] = m
        if rng.randint(2):
            obj.set(bad)
        else:
            obj.set_vector(leaf.pack(bad))
        ctx.ev('set illegal', bad)
        ctx.refused('indefinite matrix refused', owner.get_free, '{} element {} kind {}'.format(leaf.describe(), ind, kind))
        leaf.set_value(obj, good)
        ctx.same('inside is accepted', owner.get_free(), f)


def exact_matrix(rng, k, pivot):
    """A matrix of exactly representable numbers whose elimination is exact
    (unit triangular factors of small integers, pivots powers of four), with
    the given value as one pivot."""
    l = np.tril(rng.randint(-2, 3, size=(k, k)), -1) + np.eye(k)
    d = 4. ** rng.randint(-2, 3, size=k)
    d[rng.randint(k)] = pivot
    m = np.dot(l * d, l.T)
    # Nothing was rounded.
    return m if np.array_equal(m, m.T) else None


@scenario('C05', 240)
def barely_indefinite(ctx):
    """Exactly singular matrices, and ones that are indefinite by very little."""
    rng = ctx.rng
    leaf = gen.rand_leaf(rng, 'p', ['posdef', 'posdefvec', 'posdefarr'][ctx.index % 3])
    leaf.diag_lb = float(rng.choice([0., 0., 0.25, 2.]))
    leaf.k = min(leaf.k, 5)
    leaf = {'posdef': lambda: gen.PosDefSpec('p', leaf.k, leaf.diag_lb),
            'posdefvec': lambda: gen.PosDefVectorSpec('p', leaf.length, leaf.k, leaf.diag_lb),
            'posdefarr': lambda: gen.PosDefArraySpec('p', leaf.lead, leaf.k, leaf.diag_lb)}[leaf.kind]()
    ctx.struct(leaf.describe())
    owner, obj = nest(rng, leaf)
    good = leaf.legal(rng)
    for _ in range(4):
        ind = () if leaf.kind == 'posdef' else tuple(rng.randint(n) for n in leaf.lead)
        tiny = 2. ** -rng.randint(2, 40)
        for pivot in (0., -tiny, 4. ** -rng.randint(1, 16)):
            m = exact_matrix(rng, leaf.k, pivot)
            value = np.array(good)
            value[ind] = m + leaf.diag_lb * np.eye(leaf.k)
            if m is None or not np.array_equal(value[ind] - leaf.diag_lb * np.eye(leaf.k), m):
                ctx.abandon('rounded')
                continue
            if rng.randint(2):
                obj.set(value)
            else:
                obj.set_vector(leaf.pack(value))
            if pivot > 0:
                f = ctx.call('get_free', owner.get_free)
                ctx.check('inside is accepted', bool(np.all(np.isfinite(f))), leaf.describe())
            else:
                ctx.refused('indefinite matrix refused', owner.get_free, '{} element {}: {}'.format(leaf.describe(), ind, m))


@scenario('C05', 200)
def constructors(ctx):
    rng = ctx.rng
    lb = float(rng.choice([0., 1., -1., 5.5, -1e3, 1e6, 0]))
    gap = float(rng.choice([0., 0., 1e-9, 0.5, 1., 100.]))
    ub = lb - gap
    pairs = [(lb, ub), (int(lb), int(lb)), (INF, INF), (-INF, -INF), (INF, -INF), (lb, -INF), (INF, ub)]
    a, b = pairs[rng.randint(len(pairs))]
    ctx.struct('{} {}'.format(a, b))
    mk = [lambda **k: vb.ScalarParam('p', lb=a, ub=b, **k),
          lambda **k: vb.VectorParam('p', int(rng.randint(1, 5)), lb=a, ub=b, **k),
          lambda **k: vb.ArrayParam('p', shape=gen.rand_shape(rng), lb=a, ub=b, **k)][ctx.index % 3]
    ctx.refused('inverted bounds refused', mk, 'bounds {} {}'.format(a, b))
    with_val = [lambda: vb.ScalarParam('p', lb=a, ub=b, val=lb),
                lambda: vb.VectorParam('p', 2, lb=a, ub=b, val=np.full(2, lb)),
                lambda: vb.ArrayParam('p', shape=(2, 1), lb=a, ub=b, val=np.full((2, 1), lb))][ctx.index % 3]
    ctx.refused('inverted bounds refused', with_val, 'bounds {} {} with a value'.format(a, b))
    d = -float(10. ** rng.uniform(-8, 3))
    k = int(rng.randint(1, 4))
    ctx.refused('negative diagonal bound refused',
                [lambda: vb.PosDefMatrixParam('p', k, diag_lb=d),
                 lambda: vb.PosDefMatrixParamVector('p', 2, k, diag_lb=d),
                 lambda: vb.PosDefMatrixParamArray('p', (2, 1), k, diag_lb=d)][ctx.index % 3], 'diag_lb {}'.format(d))
    # Admissible arguments are accepted.
    spec = gen.rand_leaf(rng, 'q', ['scalar', 'vector', 'array', 'posdef', 'posdefvec', 'posdefarr'][ctx.index % 6])
    ctx.check('inside is accepted', bool(np.all(np.isfinite(spec.build().get_free()))), spec.describe())
