"""Generators of parameters and of values, with independent reference facts.

A spec describes one parameter object: how to build it, the sizes its
constructor arguments imply, how to make legal values for it, the documented
packing of a value into a vector, and the constraints its value must satisfy.
None of this is computed with the library under test.
"""
import collections
import numpy as np
import LinearResponseVariationalBayes as vb

EPS = np.finfo(float).eps
INF = float('inf')


# --------------------------------------------------------------------------
# sizes and bounds

def small(rng, hi=4, tail=12):
    """Mostly 1..hi, sometimes up to tail."""
    if rng.rand() < 0.12:
        return int(rng.randint(1, tail + 1))
    return int(rng.randint(1, hi + 1))


def rand_shape(rng, max_dim=4, max_size=24, min_dim=1):
    nd = [1, 2, 2, 2, 3, 3, 4][rng.randint(7)]
    nd = max(min_dim, min(nd, max_dim))
    while True:
        s = tuple(int(rng.randint(1, 5)) for _ in range(nd))
        if np.prod(s) <= max_size:
            return s


def rand_bounds(rng, allow_wide=True):
    """Admissible (lb, ub) pairs, including int bounds and odd locations."""
    kind = rng.randint(12)
    loc = float(rng.choice([0., 1., -1., -7.5, 3.25, 100., -1000.]))
    if kind <= 2:
        return -INF, INF
    if kind == 3:
        return 0, INF
    if kind == 4:
        return 0.0, INF
    if kind == 5:
        return loc, INF
    if kind == 6:
        return -INF, loc
    if kind == 7:
        return 0, 1
    if kind == 8:
        return -INF, 0
    if kind == 9:
        a = int(rng.randint(-6, 6))
        return a, a + int(rng.randint(1, 9))
    width = float(rng.choice([1e-3, 0.1, 0.5, 1., 2., 10., 1e3]))
    if allow_wide and rng.rand() < 0.1:
        width = 1e6
    return loc, loc + width


def bounds_ok(v, lb, ub):
    v = np.asarray(v, float)
    return bool(np.all(np.isfinite(v)) and np.all(v >= lb) and np.all(v <= ub))


def legal_in_bounds(rng, lb, ub, size, hard=False):
    """Values strictly inside the bounds, away from them unless hard."""
    if lb == -INF and ub == INF:
        v = rng.randn(*size) * (10. ** rng.uniform(-3, 4) if hard else 1.5)
    elif ub == INF:
        d = np.exp(rng.randn(*size) * (4. if hard else 0.7))
        v = lb + np.maximum(d, 1e3 * EPS * abs(lb) + 1e-12)
    elif lb == -INF:
        d = np.exp(rng.randn(*size) * (4. if hard else 0.7))
        v = ub - np.maximum(d, 1e3 * EPS * abs(ub) + 1e-12)
    else:
        u = rng.uniform(0.08, 0.92, size=size)
        if hard:
            u = np.where(rng.rand(*size) < 0.5, u, rng.choice(
                [1e-6, 1e-3, 1 - 1e-3, 1 - 1e-6], size=size))
        w = float(ub) - float(lb)
        v = lb + w * u
        # Keep representable room on both sides.
        room = max(1e-9 * w, 1e4 * EPS * max(abs(lb), abs(ub)))
        v = np.clip(v, lb + room, ub - room)
    return np.asarray(v, float)


def bounded_free_tol(v, f, lb, ub):
    """How far rounding of the value can move the free value."""
    v = np.asarray(v, float)
    dv = 8 * EPS * (np.abs(v) + sum(abs(b) for b in (lb, ub) if abs(b) < INF))
    t = np.zeros(v.shape)
    if lb > -INF:
        # A lower bound of zero costs no digits of the distance from it.
        dlo = 8 * EPS * np.abs(v) if lb == 0 else dv
        t = t + dlo / np.maximum(np.abs(v - lb), 1e-300)
    if ub < INF:
        t = t + dv / np.maximum(np.abs(ub - v), 1e-300)
    if lb == -INF and ub == INF:
        t = t + dv
    return np.ravel(t + 1e-13 * (1 + np.abs(np.reshape(f, v.shape))))


def rand_posdef(rng, k, diag_lb=0., hard=False):
    a = rng.randn(k, k) / np.sqrt(k)
    if hard:
        q, _ = np.linalg.qr(rng.randn(k, k))
        ev = 10. ** rng.uniform(-4, 3, size=k)
        m = np.dot(q * ev, q.T)
    else:
        m = np.dot(a, a.T) + np.diag(rng.uniform(0.3, 1.5, size=k))
    m = 0.5 * (m + m.T)
    m[np.arange(k), np.arange(k)] += diag_lb
    return m


def pd_free_tol(m, diag_lb):
    k = m.shape[0]
    a = np.asarray(m, float) - diag_lb * np.eye(k)
    ev = np.linalg.eigvalsh(a)
    lo = max(ev[0], 1e-300)
    cond = (np.max(np.abs(m)) + diag_lb) / lo
    return 200 * EPS * k * cond * max(1., np.sqrt(np.max(np.abs(a)))) + 1e-13


def tril_pairs(k):
    return [(i, j) for i in range(k) for j in range(i + 1)]


def pack_sym(m):
    m = np.asarray(m)
    return np.array([m[i, j] for i, j in tril_pairs(m.shape[0])])


def unpack_sym(v):
    n = len(v)
    k = 0
    while k * (k + 1) // 2 < n:
        k += 1
    m = np.zeros((k, k))
    for x, (i, j) in zip(v, tril_pairs(k)):
        m[i, j] = x
        m[j, i] = x
    return m


# --------------------------------------------------------------------------
# leaf specs

class Spec(object):
    composite = False
    kind = '?'
    linear = False  # free -> value is affine

    def __init__(self, name):
        self.name = name

    def describe(self):
        return self.kind

    def set_value(self, obj, value):
        obj.set(value)

    def get_value(self, obj):
        return np.array(obj.get(), copy=True)

    def raw(self, obj):
        """The live value objects, as (path, value)."""
        return [(self.name, obj.get())]

    def leaves(self, prefix=()):
        return [(prefix, self)]

    def leaf_objs(self, obj):
        return [obj]

    def same(self, ctx, monitor, got, want, msg=''):
        ctx.same(monitor, got, want, msg or self.describe())

    def close(self, ctx, monitor, got, want, tol, msg=''):
        ctx.close(monitor, got, want, tol, msg or self.describe())

    def value_tol(self, value):
        v = np.asarray(value, float)
        return 1e-12 * (1 + np.abs(v))


class ScalarSpec(Spec):
    kind = 'scalar'

    def __init__(self, name, lb=-INF, ub=INF):
        Spec.__init__(self, name)
        self.lb, self.ub = lb, ub
        self.free_size = self.vector_size = 1
        self.linear = (lb == -INF and ub == INF)

    def describe(self):
        return 'scalar[{},{}]'.format(self.lb, self.ub)

    def build(self, val=None):
        return vb.ScalarParam(self.name, lb=self.lb, ub=self.ub, val=val)

    def legal(self, rng, hard=False):
        return float(legal_in_bounds(rng, self.lb, self.ub, (1,), hard)[0])

    def get_value(self, obj):
        v = obj.get()
        return float(np.ravel(v)[0]) if np.size(v) == 1 else np.array(v)

    def pack(self, value):
        return np.array([value], dtype=float)

    def unpack(self, vec):
        return float(vec[0])

    def legal_problem(self, value):
        if np.size(value) != 1:
            return 'not a single number'
        return None if bounds_ok(value, self.lb, self.ub) else \
            'outside [{}, {}]: {!r}'.format(self.lb, self.ub, value)

    def free_tol(self, value, f):
        return bounded_free_tol(np.array([value]), f, self.lb, self.ub)

    def value_tol(self, value):
        s = sum(abs(b) for b in (self.lb, self.ub) if abs(b) < INF)
        return 1e-13 * (s + abs(value)) * 20 + 1e-300

    def shape_ok(self, obj):
        return obj.size() == 1

    def names(self):
        return [self.name]

    def tolist(self, value):
        return value


class _Bounded(Spec):
    def free_tol(self, value, f):
        return bounded_free_tol(value, f, self.lb, self.ub)

    def value_tol(self, value):
        s = sum(abs(b) for b in (self.lb, self.ub) if abs(b) < INF)
        return 1e-13 * (s + np.abs(value)) * 20 + 1e-300

    def legal_problem(self, value):
        if np.shape(value) != self.shape:
            return 'shape {} instead of {}'.format(np.shape(value), self.shape)
        return None if bounds_ok(value, self.lb, self.ub) else \
            'outside [{}, {}]: {!r}'.format(self.lb, self.ub, value)

    def legal(self, rng, hard=False):
        return legal_in_bounds(rng, self.lb, self.ub, self.shape, hard)

    def pack(self, value):
        return np.array(list(np.asarray(value).flat), dtype=float)

    def unpack(self, vec):
        out = np.zeros(self.shape)
        for i, ind in enumerate(np.ndindex(*self.shape)):
            out[ind] = vec[i]
        return out

    def tolist(self, value):
        return np.asarray(value).tolist()


class VectorSpec(_Bounded):
    kind = 'vector'

    def __init__(self, name, size, lb=-INF, ub=INF):
        Spec.__init__(self, name)
        self.size, self.lb, self.ub = size, lb, ub
        self.shape = (size,)
        self.free_size = self.vector_size = size
        self.linear = (lb == -INF and ub == INF)

    def describe(self):
        return 'vector({})[{},{}]'.format(self.size, self.lb, self.ub)

    def build(self, val=None):
        return vb.VectorParam(self.name, self.size, lb=self.lb, ub=self.ub, val=val)

    def shape_ok(self, obj):
        return obj.size() == self.size

    def names(self):
        return ['{}_{}'.format(self.name, k) for k in range(self.size)]


class ArraySpec(_Bounded):
    kind = 'array'

    def __init__(self, name, shape, lb=-INF, ub=INF):
        Spec.__init__(self, name)
        self.shape, self.lb, self.ub = tuple(shape), lb, ub
        self.free_size = self.vector_size = int(np.prod(shape))
        self.linear = (lb == -INF and ub == INF)

    def describe(self):
        return 'array{}[{},{}]'.format(self.shape, self.lb, self.ub)

    def build(self, val=None):
        return vb.ArrayParam(self.name, shape=self.shape, lb=self.lb, ub=self.ub, val=val)

    def shape_ok(self, obj):
        return tuple(obj.shape()) == self.shape

    def names(self):
        return [self.name]


class PosDefSpec(Spec):
    kind = 'posdef'

    def __init__(self, name, k, diag_lb=0.):
        Spec.__init__(self, name)
        self.k, self.diag_lb = k, diag_lb
        self.shape = (k, k)
        self.free_size = self.vector_size = k * (k + 1) // 2

    def describe(self):
        return 'posdef({})[{}]'.format(self.k, self.diag_lb)

    def build(self, val=None):
        return vb.PosDefMatrixParam(self.name, size=self.k, diag_lb=self.diag_lb, val=val)

    def legal(self, rng, hard=False):
        return rand_posdef(rng, self.k, self.diag_lb, hard)

    def pack(self, value):
        return pack_sym(value).astype(float)

    def unpack(self, vec):
        return unpack_sym(vec)

    def legal_problem(self, value):
        return matrix_problem(value, self.k, self.diag_lb)

    def free_tol(self, value, f):
        return np.full(self.free_size, pd_free_tol(value, self.diag_lb)) * (1 + np.max(np.abs(f)))

    def value_tol(self, value):
        return 1e-12 * (np.max(np.abs(value)) + self.diag_lb) * self.k

    def shape_ok(self, obj):
        return obj.size() == self.k

    def names(self):
        return [self.name]

    def tolist(self, value):
        return np.asarray(value).tolist()


def matrix_problem(value, k, diag_lb):
    value = np.asarray(value)
    if value.shape != (k, k):
        return 'shape {}'.format(value.shape)
    if not np.all(np.isfinite(value)):
        return 'not finite'
    if not np.array_equal(value, value.T):
        return 'not symmetric'
    ev = np.linalg.eigvalsh(value)
    if ev[0] < diag_lb - 100 * EPS * k * (np.max(np.abs(value)) + diag_lb):
        return 'smallest eigenvalue {} below {}'.format(ev[0], diag_lb)
    return None


class PosDefVectorSpec(Spec):
    kind = 'posdefvec'

    def __init__(self, name, length, k, diag_lb=0.):
        Spec.__init__(self, name)
        self.length, self.k, self.diag_lb = length, k, diag_lb
        self.lead = (length,)
        self.shape = (length, k, k)
        self.block = k * (k + 1) // 2
        self.free_size = self.vector_size = length * self.block

    def describe(self):
        return 'posdefvec({},{})[{}]'.format(self.length, self.k, self.diag_lb)

    def build(self, val=None):
        return vb.PosDefMatrixParamVector(
            self.name, length=self.length, matrix_size=self.k,
            diag_lb=self.diag_lb, val=val)

    def legal(self, rng, hard=False):
        out = np.zeros(self.shape)
        for ind in np.ndindex(*self.lead):
            out[ind] = rand_posdef(rng, self.k, self.diag_lb, hard)
        return out

    def pack(self, value):
        return np.concatenate([pack_sym(value[ind])
                               for ind in np.ndindex(*self.lead)]).astype(float)

    def unpack(self, vec):
        out = np.zeros(self.shape)
        for n, ind in enumerate(np.ndindex(*self.lead)):
            out[ind] = unpack_sym(vec[n * self.block:(n + 1) * self.block])
        return out

    def legal_problem(self, value):
        if np.shape(value) != self.shape:
            return 'shape {}'.format(np.shape(value))
        for ind in np.ndindex(*self.lead):
            p = matrix_problem(value[ind], self.k, self.diag_lb)
            if p:
                return 'matrix {}: {}'.format(ind, p)
        return None

    def free_tol(self, value, f):
        out = []
        for n, ind in enumerate(np.ndindex(*self.lead)):
            fb = f[n * self.block:(n + 1) * self.block]
            out.append(np.full(self.block, pd_free_tol(value[ind], self.diag_lb))
                       * (1 + np.max(np.abs(fb))))
        return np.concatenate(out)

    def value_tol(self, value):
        return 1e-12 * (np.max(np.abs(value)) + self.diag_lb) * self.k

    def shape_ok(self, obj):
        return obj.length() == int(np.prod(self.lead)) and obj.matrix_size() == self.k

    def names(self):
        return [self.name]

    def tolist(self, value):
        return np.asarray(value).tolist()


class PosDefArraySpec(PosDefVectorSpec):
    kind = 'posdefarr'

    def __init__(self, name, lead, k, diag_lb=0.):
        Spec.__init__(self, name)
        self.lead, self.k, self.diag_lb = tuple(lead), k, diag_lb
        self.shape = self.lead + (k, k)
        self.block = k * (k + 1) // 2
        self.free_size = self.vector_size = int(np.prod(lead)) * self.block

    def describe(self):
        return 'posdefarr({},{})[{}]'.format(self.lead, self.k, self.diag_lb)

    def build(self, val=None):
        return vb.PosDefMatrixParamArray(
            self.name, array_shape=self.lead, matrix_size=self.k,
            diag_lb=self.diag_lb, val=val)


class SimplexSpec(Spec):
    kind = 'simplex'

    def __init__(self, name, rows, cols):
        Spec.__init__(self, name)
        self.shape = (rows, cols)
        self.free_size = rows * (cols - 1)
        self.vector_size = rows * cols

    def describe(self):
        return 'simplex{}'.format(self.shape)

    def build(self, val=None):
        return vb.SimplexParam(self.name, shape=self.shape, val=val)

    def legal(self, rng, hard=False):
        a = np.exp(rng.randn(*self.shape) * (5. if hard else 0.8))
        return a / np.sum(a, axis=1, keepdims=True)

    def pack(self, value):
        return np.array(list(np.asarray(value).flat), dtype=float)

    def unpack(self, vec):
        out = np.zeros(self.shape)
        for i, ind in enumerate(np.ndindex(*self.shape)):
            out[ind] = vec[i]
        return out

    def legal_problem(self, value):
        if np.shape(value) != self.shape:
            return 'shape {}'.format(np.shape(value))
        if not np.all(np.isfinite(value)):
            return 'not finite'
        if np.any(value <= 0) or np.any(value > 1 + 1e-12):
            return 'entries outside (0, 1]'
        s = np.sum(value, axis=1)
        if np.any(np.abs(s - 1) > 1e-11):
            return 'rows sum to {}'.format(s)
        return None

    def free_tol(self, value, f):
        return np.full(self.free_size, 1e-12 * (1 + np.max(np.abs(f))))

    def value_tol(self, value):
        return 1e-11 * np.abs(value) + 1e-300

    def shape_ok(self, obj):
        return tuple(obj.shape()) == self.shape and \
            tuple(obj.free_shape()) == (self.shape[0], self.shape[1] - 1)

    def names(self):
        return [self.name]

    def tolist(self, value):
        return np.asarray(value).tolist()


class SubspaceSpec(Spec):
    kind = 'subspace'
    linear = True

    def __init__(self, name, dim, perp=None):
        Spec.__init__(self, name)
        self.dim = dim
        self.perp = perp
        self.shape = (dim,)
        nperp = 1 if perp is None else perp.shape[0]
        self.free_size = dim - nperp
        self.vector_size = dim

    def rows(self):
        return np.ones((1, self.dim)) if self.perp is None else self.perp

    def describe(self):
        return 'subspace({},{})'.format(
            self.dim, 'default' if self.perp is None else self.perp.shape[0])

    def build(self, val=None):
        return vb.SubspaceVectorParam(
            self.name, dim=self.dim, val=val, perp_subspace=self.perp)

    def legal(self, rng, hard=False):
        v = rng.randn(self.dim) * (10. ** rng.uniform(-3, 3) if hard else 1.5)
        q, _ = np.linalg.qr(self.rows().T)
        return v - np.dot(q, np.dot(q.T, v))

    def pack(self, value):
        return np.array(list(np.asarray(value).flat), dtype=float)

    def unpack(self, vec):
        return np.array(vec, dtype=float)

    def legal_problem(self, value):
        if np.shape(value) != self.shape:
            return 'shape {}'.format(np.shape(value))
        if not np.all(np.isfinite(value)):
            return 'not finite'
        r = self.rows()
        r = r / np.sqrt(np.sum(r ** 2, axis=1, keepdims=True))
        dots = np.dot(r, value)
        if np.any(np.abs(dots) > 1e-9 * (1e-3 + np.max(np.abs(value)))):
            return 'not orthogonal: {}'.format(dots)
        return None

    def free_tol(self, value, f):
        return np.full(self.free_size, 1e-11 * (1e-3 + np.max(np.abs(value))))

    def value_tol(self, value):
        return 1e-10 * (1e-3 + np.max(np.abs(value)))

    def shape_ok(self, obj):
        return obj.dim() == self.dim

    def names(self):
        return ['{}_{}'.format(self.name, k) for k in range(self.dim)]

    def tolist(self, value):
        return np.asarray(value).tolist()


# --------------------------------------------------------------------------
# collections

class DictSpec(Spec):
    kind = 'dict'
    composite = True

    def __init__(self, name, children, builder=None, kind=None):
        Spec.__init__(self, name)
        self.children = children
        self.builder = builder
        if kind:
            self.kind = kind
        self.free_size = sum(c.free_size for c in children)
        self.vector_size = sum(c.vector_size for c in children)
        self.linear = all(c.linear for c in children)

    def describe(self):
        return '{}<{}>'.format(
            self.kind, ','.join(c.describe() for c in self.children))

    def build(self, val=None):
        if self.builder is not None:
            return self.builder(self.name)
        d = vb.ModelParamsDict(self.name)
        for c in self.children:
            d.push_param(c.build())
        return d

    def legal(self, rng, hard=False):
        return collections.OrderedDict(
            (c.name, c.legal(rng, hard)) for c in self.children)

    def set_value(self, obj, value):
        for c in self.children:
            c.set_value(obj[c.name], value[c.name])

    def get_value(self, obj):
        return collections.OrderedDict(
            (c.name, c.get_value(obj[c.name])) for c in self.children)

    def raw(self, obj):
        out = []
        for c in self.children:
            out.extend((self.name + '/' + p, v) for p, v in c.raw(obj[c.name]))
        return out

    def leaves(self, prefix=()):
        out = []
        for c in self.children:
            out.extend(c.leaves(prefix + (c.name,)))
        return out

    def leaf_objs(self, obj):
        out = []
        for c in self.children:
            out.extend(c.leaf_objs(obj[c.name]))
        return out

    def pack(self, value):
        return np.concatenate([c.pack(value[c.name]) for c in self.children])

    def unpack(self, vec):
        out = collections.OrderedDict()
        o = 0
        for c in self.children:
            out[c.name] = c.unpack(vec[o:o + c.vector_size])
            o += c.vector_size
        return out

    def legal_problem(self, value):
        for c in self.children:
            p = c.legal_problem(value[c.name])
            if p:
                return '{}: {}'.format(c.name, p)
        return None

    def free_tol(self, value, f):
        out, o = [], 0
        for c in self.children:
            out.append(c.free_tol(value[c.name], f[o:o + c.free_size]))
            o += c.free_size
        return np.concatenate(out)

    def value_tol(self, value):
        return collections.OrderedDict(
            (c.name, c.value_tol(value[c.name])) for c in self.children)

    def same(self, ctx, monitor, got, want, msg=''):
        for c in self.children:
            c.same(ctx, monitor, got[c.name], want[c.name],
                   (msg or self.describe()) + ' member ' + repr(c.name))

    def close(self, ctx, monitor, got, want, tol, msg=''):
        for c in self.children:
            c.close(ctx, monitor, got[c.name], want[c.name], tol[c.name],
                    (msg or self.describe()) + ' member ' + repr(c.name))

    def shape_ok(self, obj):
        return all(c.shape_ok(obj[c.name]) for c in self.children)

    def names(self):
        out = []
        for c in self.children:
            out.extend(c.names())
        return out

    def tolist(self, value):
        return collections.OrderedDict(
            (c.name, c.tolist(value[c.name])) for c in self.children)


def mvn_spec(name, dim, min_info=0.):
    return DictSpec(
        name, [VectorSpec('mean', dim), PosDefSpec('info', dim, min_info)],
        lambda n: vb.MVNParam(n, dim=dim, min_info=min_info), 'mvn')


def uvn_spec(name, min_info=0.):
    return DictSpec(
        name, [ScalarSpec('mean'), ScalarSpec('info', lb=min_info)],
        lambda n: vb.UVNParam(n, min_info=min_info), 'uvn')


def uvnvec_spec(name, length, min_info=0.):
    return DictSpec(
        name, [VectorSpec('mean', length), VectorSpec('info', length, lb=min_info)],
        lambda n: vb.UVNParamVector(n, length=length, min_info=min_info), 'uvnvec')


def uvnarr_spec(name, shape, min_info=0.):
    return DictSpec(
        name, [ArraySpec('mean', shape), ArraySpec('info', shape, lb=min_info)],
        lambda n: vb.UVNParamArray(n, shape=shape, min_info=min_info), 'uvnarr')


def uvnmom_spec(name, shape, min_info=0.):
    return DictSpec(
        name, [ArraySpec('e', shape), ArraySpec('e2', shape, lb=min_info)],
        lambda n: vb.UVNMomentParamArray(n, shape=shape, min_info=min_info), 'uvnmom')


def mvnarr_spec(name, shape, min_info=0.):
    return DictSpec(
        name, [ArraySpec('mean', shape), VectorSpec('info', shape[0], lb=min_info)],
        lambda n: vb.MVNArray(n, shape=shape, min_info=min_info), 'mvnarr')


def gamma_spec(name, min_shape=0., min_rate=0.):
    return DictSpec(
        name, [ScalarSpec('shape', lb=min_shape), ScalarSpec('rate', lb=min_rate)],
        lambda n: vb.GammaParam(n, min_shape=min_shape, min_rate=min_rate), 'gamma')


def wishart_spec(name, size, diag_lb=0., min_df=None):
    lb = min_df if min_df else size - 1
    return DictSpec(
        name, [ScalarSpec('df', lb=lb), PosDefSpec('v', size, diag_lb)],
        lambda n: vb.WishartParam(n, size=size, diag_lb=diag_lb, min_df=min_df), 'wishart')


def dirichlet_spec(name, shape, min_alpha=0.):
    return DictSpec(
        name, [ArraySpec('alpha', shape, lb=min_alpha)],
        lambda n: vb.DirichletParamArray(n, shape=shape, min_alpha=min_alpha), 'dirichlet')


LEAF_KINDS = ['scalar', 'vector', 'array', 'posdef', 'posdefvec', 'posdefarr',
              'simplex', 'subspace']
DIST_KINDS = ['mvn', 'uvn', 'uvnvec', 'uvnarr', 'uvnmom', 'mvnarr', 'gamma',
              'wishart', 'dirichlet']


def rand_lb(rng):
    return float(rng.choice([0., 0., 0.5, 2.5, 0.01]))


def rand_leaf(rng, name, kind=None, big=True, wide=True):
    kind = kind or LEAF_KINDS[rng.randint(len(LEAF_KINDS))]
    tail = 12 if big else 4
    if kind == 'scalar':
        return ScalarSpec(name, *rand_bounds(rng, wide))
    if kind == 'vector':
        return VectorSpec(name, small(rng, 5, 20 if big else 5), *rand_bounds(rng, wide))
    if kind == 'array':
        return ArraySpec(name, rand_shape(rng, max_size=24 if big else 6),
                         *rand_bounds(rng, wide))
    if kind == 'posdef':
        return PosDefSpec(name, small(rng, 4 if big else 3, 8 if big else 3), rand_lb(rng))
    if kind == 'posdefvec':
        return PosDefVectorSpec(name, small(rng, 3, 6 if big else 3),
                                small(rng, 3 if big else 2, 5 if big else 2), rand_lb(rng))
    if kind == 'posdefarr':
        lead = rand_shape(rng, max_dim=3, max_size=8 if big else 4)
        return PosDefArraySpec(name, lead, small(rng, 3 if big else 2, 4 if big else 2), rand_lb(rng))
    if kind == 'simplex':
        return SimplexSpec(name, small(rng, 3, 8 if big else 3),
                           1 + small(rng, 4 if big else 2, tail if big else 2))
    if kind == 'subspace':
        dim = 1 + small(rng, 4 if big else 3, tail if big else 3)
        if rng.rand() < 0.4:
            return SubspaceSpec(name, dim)
        n = int(rng.randint(1, dim))
        rows = rng.randn(n, dim)
        q, _ = np.linalg.qr(rows.T)
        mix = np.diag(np.exp(rng.uniform(-1, 1, size=n))) + 0.2 * rng.randn(n, n)
        if abs(np.linalg.det(mix)) < 1e-2:
            mix = np.eye(n)
        return SubspaceSpec(name, dim, np.dot(mix, q.T))
    raise KeyError(kind)


def rand_dist(rng, name, kind=None, big=True):
    kind = kind or DIST_KINDS[rng.randint(len(DIST_KINDS))]
    lb = rand_lb(rng)
    hi = 4 if big else 2
    if kind == 'mvn':
        return mvn_spec(name, small(rng, hi, 6 if big else 2), lb)
    if kind == 'uvn':
        return uvn_spec(name, lb)
    if kind == 'uvnvec':
        return uvnvec_spec(name, small(rng, hi, 8 if big else 3), lb)
    if kind == 'uvnarr':
        return uvnarr_spec(name, rand_shape(rng, max_size=12 if big else 4), lb)
    if kind == 'uvnmom':
        return uvnmom_spec(name, rand_shape(rng, max_size=12 if big else 4), lb)
    if kind == 'mvnarr':
        s = (small(rng, hi, 6 if big else 2), small(rng, hi, 6 if big else 2))
        return mvnarr_spec(name, s, lb)
    if kind == 'gamma':
        return gamma_spec(name, lb, rand_lb(rng))
    if kind == 'wishart':
        size = small(rng, 3 if big else 2, 5 if big else 2)
        min_df = None if rng.rand() < 0.6 else size - 1 + float(rng.choice([0.5, 1., 3.]))
        return wishart_spec(name, size, lb, min_df)
    if kind == 'dirichlet':
        s = rand_shape(rng, max_size=12 if big else 4, min_dim=1)
        return dirichlet_spec(name, s, lb)
    raise KeyError(kind)


NAME_POOL = ['a', 'b', 'mean', 'info', 'x0', 'x1', 'x10', 'theta', 'Theta',
             'beta hat', '', '0', '_', 'values', 'free', u'\u03bc', 'a_b', 'a.b',
             'tau', 'zeta', 'y', 'k', 'alpha', 'name', 'par']


def rand_dict(rng, name, depth=2, big=True, max_members=5, dists=True, leaf_kinds=None,
              allow_empty_names=True):
    n = int(rng.randint(1, max_members + 1))
    if rng.rand() < 0.08 and big:
        n = int(rng.randint(6, 13))
    pool = [p for p in NAME_POOL if p or allow_empty_names]
    names = [pool[i] for i in rng.permutation(len(pool))[:n]]
    kids = []
    for nm in names:
        r = rng.rand()
        if depth > 1 and r < 0.2:
            kids.append(rand_dict(rng, nm, depth - 1, big and n <= 5, 3, dists, leaf_kinds))
        elif dists and r < 0.4:
            kids.append(rand_dist(rng, nm, big=big and n <= 5))
        else:
            kind = None if leaf_kinds is None else leaf_kinds[rng.randint(len(leaf_kinds))]
            kids.append(rand_leaf(rng, nm, kind, big=big and n <= 5))
    return DictSpec(name, kids)


def flag(rng, value):
    """True or False, as Python, numpy or a comparison would give it."""
    return [bool, np.bool_, int][rng.randint(3)](value) if rng.rand() < 0.5 else bool(value)


def large_spec(rng, name, kind):
    """The same kinds at sizes ordinary models have."""
    n = lambda lo, hi: int(rng.randint(lo, hi))
    if kind == 'vector':
        return VectorSpec(name, n(60, 400), *rand_bounds(rng))
    if kind == 'array':
        return ArraySpec(name, [(n(30, 300),), (n(8, 25), n(8, 25)), (n(2, 9), n(2, 9), n(2, 9)), (5, 2, 3, 4, 2)][n(0, 4)], *rand_bounds(rng))
    if kind == 'posdef':
        return PosDefSpec(name, n(9, 22), rand_lb(rng))
    if kind == 'posdefvec':
        return PosDefVectorSpec(name, n(7, 25), n(1, 6), rand_lb(rng))
    if kind == 'posdefarr':
        return PosDefArraySpec(name, [(n(7, 20),), (4, 5), (2, 3, 2)][n(0, 3)], n(1, 6), rand_lb(rng))
    if kind == 'simplex':
        return SimplexSpec(name, *[(n(9, 60), n(2, 6)), (n(1, 4), n(13, 60))][n(0, 2)])
    if kind == 'subspace':
        return SubspaceSpec(name, n(13, 50))
    if kind == 'mvn':
        return mvn_spec(name, n(7, 16), rand_lb(rng))
    if kind == 'uvnvec':
        return uvnvec_spec(name, n(9, 60), rand_lb(rng))
    if kind == 'uvnarr':
        return uvnarr_spec(name, (n(4, 9), n(4, 9)), rand_lb(rng))
    if kind == 'uvnmom':
        return uvnmom_spec(name, (n(4, 9), n(4, 9)), rand_lb(rng))
    if kind == 'mvnarr':
        return mvnarr_spec(name, (n(7, 40), n(7, 20)), rand_lb(rng))
    if kind == 'wishart':
        return wishart_spec(name, n(6, 14), rand_lb(rng))
    if kind == 'dirichlet':
        return dirichlet_spec(name, (n(5, 20), n(4, 12)), rand_lb(rng))
    if kind == 'dict':
        m = n(14, 70)
        return DictSpec(name, [rand_leaf(rng, 'par{}'.format(i), big=False) for i in rng.permutation(m)])
    return None


def rand_spec(rng, ctx=None, big=True, name='par', index=None, max_free=None, dicts=True,
              kinds=None):
    """Any parameter.  The case index walks through the kinds so that every
    kind is covered in every run."""
    while True:
        pool = kinds or (LEAF_KINDS + DIST_KINDS + (['dict'] * 5 if dicts else []))
        if index is None:
            kind = pool[rng.randint(len(pool))]
        else:
            kind = pool[index % len(pool)]
        if kind in LEAF_KINDS:
            s = rand_leaf(rng, name, kind, big)
        elif kind in DIST_KINDS:
            s = rand_dist(rng, name, kind, big)
        else:
            s = rand_dict(rng, name, depth=int(rng.randint(1, 4)), big=big)
        if big and max_free is None and rng.rand() < 0.04:
            s = large_spec(rng, name, kind) or s
            if ctx is not None:
                ctx.feat('large')
        if max_free is None or s.free_size <= max_free:
            break
    if ctx is not None:
        ctx.struct(s.describe())
        ctx.feat('kind:' + s.kind)
        for _, l in s.leaves():
            ctx.feat('leaf:' + l.kind)
            if hasattr(l, 'lb'):
                ctx.feat('bounds:' + ('lb' if l.lb > -INF else '') + ('ub' if l.ub < INF else ''))
    return s


def rand_free(rng, spec, scale=None):
    """A moderate free vector."""
    if scale is None:
        scale = float(rng.choice([0.3, 1.0, 1.0, 2.0, 4.0]))
    f = rng.randn(spec.free_size) * scale
    if rng.rand() < 0.15:
        f[rng.rand(f.size) < 0.5] = 0.
    elif f.size > 1 and rng.rand() < 0.15:
        # Entries that nearly agree.
        f = f[0] + rng.randn(f.size) * 10. ** rng.uniform(-8, -4)
    # Matrices: keep conditioning moderate; exponentiated entries are bounded.
    return np.clip(f, -6., 6.) if not _has_matrix(spec) else np.clip(f, -2.2, 2.2)


def _has_matrix(spec):
    return any(l.kind.startswith('posdef') for _, l in spec.leaves())


def layout(rng, a):
    """The same numbers in another memory layout."""
    a = np.asarray(a)
    k = rng.randint(6)
    if k == 0:
        return np.array(a, order='F')
    if k == 1 and a.ndim >= 1:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 2 and a.ndim >= 1:
        return np.array(a[..., ::-1])[..., ::-1]
    if k == 3:
        b = np.array(a)
        b.setflags(write=False)
        return b
    if k == 4 and a.ndim >= 2:
        return np.array(a.T).T
    return np.array(a)
