"""C11-C14: objectives, preconditioned and two-parameter objectives, converters."""
import copy
import numpy as onp
import autograd
import autograd.numpy as np
import scipy.sparse
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from core import scenario, prop, is_plain
import gen
import functors
import oracles
from props.params import pollute
from props.transforms import dense

FREE_R = 0.2
VEC_R = 0.1


class Model(object):
    """A parameter, a random smooth user function of it, and a twin on which
    the same function is executed plainly by the oracle."""

    def __init__(self, ctx, index=None, max_free=7, out_shape=None, dicts=True, spec=None):
        rng = ctx.rng
        self.ctx = ctx
        self.spec = spec or gen.rand_spec(rng, ctx, big=bool(rng.rand() < 0.3),
                                          index=index, max_free=max_free, dicts=dicts)
        self.par = self.spec.build()
        self.twin = self.spec.build()
        self.f0 = functors.point(rng, self.spec)
        self.twin.set_free(self.f0)
        self.value0 = self.spec.get_value(self.twin)
        self.out_shape = out_shape
        n = 2 if out_shape is None else 2 * int(onp.prod(out_shape))
        self.fns = [functors.Functor(rng, self.spec, self.value0) for _ in range(n)]
        self.mag = 4 * functors.magnitude(self.spec, self.value0)
        self.seen = []

    def eval_at(self, par, args, kw):
        """The user's function: scalar, or an array of out_shape."""
        a, b = (list(args) + [1., 0.5])[:2] if len(args) < 2 else args[:2]
        if len(args) == 1:
            b = 0.5
        w = kw.get('w', 0.7)
        vals = [fn(par) for fn in self.fns]
        if self.out_shape is None:
            return a * vals[0] + w * np.sin(0.3 * vals[1]) + b
        half = len(vals) // 2
        out = np.array([a * vals[i] + w * np.sin(0.3 * vals[half + i]) + b * (i + 1)
                        for i in range(half)])
        return np.reshape(out, self.out_shape)

    def user_fun(self):
        def fun(*args, **kw):
            self.seen.append((args, dict(kw)))
            return self.eval_at(self.par, args, kw)
        return fun

    def rand_args(self):
        rng = self.ctx.rng
        args, kw = (), {}
        k = rng.randint(4)
        if k >= 1:
            args = (float(rng.uniform(0.5, 2.)),)
        if k >= 2:
            args = args + (float(rng.randn()),)
        if rng.rand() < 0.5:
            kw['w'] = float(rng.uniform(-1, 1))
        return args, kw

    def plain(self, is_free, args, kw):
        """x -> value, executed on the twin."""
        def phi(x):
            if is_free:
                self.twin.set_free(x)
            else:
                self.twin.set_vector(x)
            return onp.asarray(self.eval_at(self.twin, args, kw), float)
        return phi

    def point(self, is_free):
        """(x, unit, r): a legal point and the size of a unit step there."""
        rng = self.ctx.rng
        f = onp.clip(self.f0 + 0.5 * rng.randn(self.f0.size), -2., 2.)
        if is_free:
            return f, onp.ones(f.size), FREE_R
        self.twin.set_free(f)
        value = self.spec.get_value(self.twin)
        x, margin = self.spec.pack(value), functors.vec_margin(self.spec, value)
        if rng.rand() < 0.4:
            # Within the bounds, but off any linear constraint, which
            # derivatives with respect to a vector ignore as well.
            x = x + 0.1 * VEC_R * margin * rng.uniform(-1, 1, size=x.size)
        return x, margin, VEC_R

    def check_args(self, args, kw):
        self.ctx.check('arguments passed through', len(self.seen) > 0 and all(
            len(a) == len(args) and all(x == y for x, y in zip(a, args)) and
            set(k) == set(kw) and all(k[n] == kw[n] for n in kw)
            for a, k in self.seen), 'user function got {} instead of {} {}'.format(self.seen[:2], args, kw))
        self.seen = []


def udir(rng, unit):
    u = rng.uniform(-1, 1, size=unit.size)
    if rng.rand() < 0.25:
        u = onp.eye(unit.size)[rng.randint(unit.size)]
    return u * unit


def probe(phi, x, u, r, mag, kmax=2):
    return oracles.derivs(lambda t: phi(x + t * u), kmax, r, mag=mag)


# ---------------------------------------------------------------- C11

prop('C11', rule='every parameter kind in rotation with random smooth user functions (scalar and array valued), positional and keyword arguments, and random sequences of evaluations in both parameterizations; each result is compared with spectral derivatives of plain executions on a twin parameter',
     required=['value', 'gradient', 'hessian', 'jacobian', 'hvp', 'shape', 'arguments passed through', 'other users of the parameter'],
     assumptions=['derivatives of plain executions are measured by Chebyshev interpolation at two orders; points where the two disagree are abandoned, and counted'])


def check_value(ctx, monitor, got, want, msg):
    ctx.close(monitor, got, want, 1e-10 * (1 + onp.max(onp.abs(want))), msg)


@scenario('C11', 220)
def evaluation_sequences(ctx):
    rng = ctx.rng
    m = Model(ctx, ctx.index)
    obj = obj_lib.Objective(m.par, m.user_fun())
    pollute(ctx, m.spec, m.par)
    other = obj_lib.Objective(m.par, lambda: np.sum(m.par.get_vector() ** 2))
    n_ops = int(rng.randint(3, 6))
    ops = ['value', 'gradient', 'hessian', 'hvp', 'jacobian']
    for step in range(n_ops):
        is_free = bool(rng.randint(2))
        op = ops[(ctx.index + step) % 5] if step < 2 else ops[rng.randint(5)]
        x, unit, r = m.point(is_free)
        args, kw = m.rand_args()
        name = 'free' if is_free else 'vector'
        phi = m.plain(is_free, args, kw)
        msg = '{} {}'.format(name, m.spec.describe())
        ctx.feat('op {} {}'.format(op, name))
        m.seen = []
        u, w = udir(rng, unit), udir(rng, unit)
        xa = gen.layout(rng, x)
        if op == 'value':
            kw2 = dict(kw)
            verbose = is_free and rng.rand() < 0.2
            if verbose:
                kw2['verbose'] = True
                obj.logger.callback = lambda l: None
            got = ctx.call('fun_' + name, getattr(obj, 'fun_' + name), xa, *args, **kw2)
            m.check_args(args, kw)
            check_value(ctx, 'value', got, phi(x), msg)
            continue
        if op == 'hvp':
            got = ctx.call('hvp_' + name, getattr(obj, 'fun_' + name + '_hvp'), xa, *(args + (w,)), **kw)
            m.check_args(args, kw)
            ctx.check('shape', onp.shape(got) == x.shape, msg)
            want, err = oracles.second_mixed(lambda s, t: phi(x + s * u + t * w), r, mag=m.mag)
            oracles.compare(ctx, 'hvp', onp.dot(u, got), want, err, floor=1e-10, msg=msg)
            d, e = probe(phi, x, w, r, m.mag)
            oracles.compare(ctx, 'hvp', onp.dot(w, got), d[2], e[2], floor=1e-10, msg=msg)
            continue
        d, e = probe(phi, x, u, r, m.mag)
        if op == 'hessian':
            H = ctx.call('hess_' + name, getattr(obj, 'fun_' + name + '_hessian'), xa, *args, **kw)
            m.check_args(args, kw)
            ctx.check('shape', onp.shape(H) == (x.size, x.size), msg)
            oracles.compare(ctx, 'hessian', onp.dot(u, onp.dot(H, u)), d[2], e[2], floor=1e-10, msg=msg)
            want, err = oracles.second_mixed(lambda s, t: phi(x + s * u + t * w), r, mag=m.mag)
            oracles.compare(ctx, 'hessian', onp.dot(u, onp.dot(H, w)), want, err, floor=1e-10, msg=msg)
        else:
            fn = getattr(obj, 'fun_' + name + ('_grad' if op == 'gradient' else '_jacobian'))
            G = ctx.call(op + '_' + name, fn, xa, *args, **kw)
            m.check_args(args, kw)
            ctx.check('shape', onp.shape(G) == x.shape, lambda: msg + str(onp.shape(G)))
            oracles.compare(ctx, op, onp.dot(G, u), d[1], e[1], floor=1e-10, msg=msg)
        if rng.rand() < 0.3:
            # Another objective sharing the parameter, in between.
            z, _, _ = m.point(is_free)
            g = getattr(other, 'fun_' + name + '_grad')(z)
            ctx.ev('other objective', g)
            if not is_free:
                check_value(ctx, 'other users of the parameter', g, 2 * z, msg)


@scenario('C11', 60)
def array_valued(ctx):
    rng = ctx.rng
    shape = [(2,), (3,), (2, 2), (1, 3)][rng.randint(4)]
    m = Model(ctx, ctx.index, 6, out_shape=shape)
    obj = obj_lib.Objective(m.par, m.user_fun())
    pollute(ctx, m.spec, m.par)
    for is_free in (True, False):
        x, unit, r = m.point(is_free)
        args, kw = m.rand_args()
        phi = m.plain(is_free, args, kw)
        u = udir(rng, unit)
        d, e = probe(phi, x, u, r, m.mag, 1)
        name = 'free' if is_free else 'vector'
        m.seen = []
        J = ctx.call('jacobian', getattr(obj, 'fun_' + name + '_jacobian'), x, *args, **kw)
        m.check_args(args, kw)
        ctx.check('shape', onp.shape(J) == shape + x.shape, lambda: str(onp.shape(J)))
        oracles.compare(ctx, 'jacobian', onp.dot(J, u), d[1], e[1], floor=1e-10, msg=m.spec.describe())
        check_value(ctx, 'value', getattr(obj, 'fun_' + name)(x, *args, **kw), phi(x), '')


@scenario('C11', 40)
def same_point_consistency(ctx):
    """Many calls in random order at a few points: every repeat agrees."""
    rng = ctx.rng
    m = Model(ctx, None, 5)
    obj = obj_lib.Objective(m.par, m.user_fun())
    pts = [(f, m.point(f)[0]) for f in (True, False, True)]
    seen = {}
    for _ in range(14):
        i = rng.randint(len(pts))
        is_free, x = pts[i]
        name = 'free' if is_free else 'vector'
        op = ['', '_grad', '_hessian', '_jacobian', '_hvp'][rng.randint(5)]
        a = (x, onp.cos(onp.arange(x.size))) if op == '_hvp' else (x,)
        got = onp.asarray(ctx.call('fun_' + name + op, getattr(obj, 'fun_' + name + op), *a))
        if (i, op) in seen:
            want = seen[(i, op)]
            ctx.close('repeatable', got, want, 1e-10 * (1 + onp.max(onp.abs(want))))
        seen[(i, op)] = onp.array(got)
        if (i, '_hessian') in seen and op == '_hvp':
            want = onp.dot(seen[(i, '_hessian')], a[1])
            ctx.close('hvp', got, want, 1e-8 * (1 + onp.max(onp.abs(want))))
        if (i, '_grad') in seen and op == '_jacobian':
            ctx.close('jacobian', got, seen[(i, '_grad')], 1e-8 * (1 + onp.max(onp.abs(got))))


def hostile_points(rng, m, is_free):
    """(label, point): a few legal points that nearly coincide, differ in one
    entry, or are written into one and the same array."""
    x, unit, _ = m.point(is_free)
    buf = onp.array(x)
    yield 'base point', buf
    for _ in range(int(rng.randint(3, 6))):
        k = rng.randint(5)
        if k == 0:
            buf += 10. ** rng.uniform(-8, -4) * unit * rng.uniform(-1, 1, size=x.size)
            yield 'same array, changed a little', buf
        elif k == 1:
            i = rng.randint(x.size)
            buf[i] += 0.1 * unit[i] * rng.uniform(-1, 1)
            yield 'same array, one entry changed', buf
        elif k == 2:
            buf[:] = m.point(is_free)[0]
            yield 'same array, another point', buf
        elif k == 3:
            yield 'new array, close by', buf + 10. ** rng.uniform(-8, -4) * unit * rng.uniform(-1, 1, size=x.size)
        else:
            yield 'the same point again', onp.array(buf)


def any_direction(rng, n):
    """Directions of every size, with exact zeros, not normalized."""
    w = rng.randn(n) * 10. ** rng.uniform(-16, 8)
    k = rng.randint(5)
    if k == 0:
        w = w * (onp.arange(n) == rng.randint(n))
    elif k == 1:
        w[rng.rand(n) < 0.5] = 0.
    elif k == 2:
        w = w * 10. ** rng.uniform(-8, 8, size=n)
    elif k == 3 and rng.rand() < 0.3:
        w[:] = 0.
    return w


class Reference(object):
    """The same function executed, and differentiated, directly on fresh
    parameter objects, without any objective."""

    def __init__(self, m):
        self.m = m

    def fun(self, is_free, args, kw):
        m = self.m
        par = m.spec.build()

        def F(x):
            (par.set_free if is_free else par.set_vector)(x)
            return m.eval_at(par, args, kw)
        return F


def near(ctx, monitor, got, want, size, msg, mag=0.):
    ctx.close(monitor, got, want, (1e-9 + 2e-15 * mag) * size + 1e-300, msg)


@scenario('C11', 80)
def hostile_histories(ctx):
    """Reused arrays, nearly repeated points, directions of any size and larger
    parameters, against direct differentiation on fresh objects."""
    rng = ctx.rng
    big = ctx.index % 4 == 3
    m = Model(ctx, None, 24 if big else 7, spec=gen.rand_leaf(
        rng, 'par', ['vector', 'array', 'simplex'][rng.randint(3)], wide=False) if big else None)
    if big:
        ctx.struct(m.spec.describe())
    obj = obj_lib.Objective(m.par, m.user_fun())
    ref = Reference(m)
    is_free = bool(rng.rand() < 0.6)
    name = 'free' if is_free else 'vector'
    for label, x in hostile_points(rng, m, is_free):
        args, kw = m.rand_args()
        F = ref.fun(is_free, args, kw)
        msg = '{} {} {}'.format(name, label, m.spec.describe())
        want = {'': F(onp.array(x)), '_grad': autograd.grad(F)(onp.array(x))}
        want['_jacobian'] = want['_grad']
        ops = ['', '_grad', '_hvp', ['_jacobian', '_hessian'][rng.randint(2)]]
        H = autograd.hessian(F)(onp.array(x))
        for op in [ops[i] for i in rng.permutation(4)[:3]]:
            m.seen = []
            f = getattr(obj, 'fun_' + name + op)
            if op == '_hvp':
                w = any_direction(rng, x.size)
                got = ctx.call(op, f, x, *(args + (w,)), **kw)
                near(ctx, 'hvp', got, onp.dot(H, w), onp.dot(onp.abs(H), onp.abs(w)) + 1e-3 * onp.max(onp.abs(w)), msg, m.mag)
            else:
                got = onp.array(ctx.call('fun' + op, f, x, *args, **kw))
                ref_val = H if op == '_hessian' else want[op]
                near(ctx, {'': 'value', '_grad': 'gradient', '_jacobian': 'jacobian', '_hessian': 'hessian'}[op],
                     got, ref_val, 0.1 + onp.abs(ref_val), msg, m.mag)
            m.check_args(args, kw)


@scenario('C11', 40)
def many_parameters(ctx):
    """Dozens of parameters, with derivatives in closed form and the user
    function's own arguments passed by position and by name."""
    rng = ctx.rng
    n = int(rng.choice([12, 17, 25, 33, 40, 65]))
    lb = [None, 0., -2.][rng.randint(3)]
    if rng.randint(2):
        spec = gen.VectorSpec('p', n, *((-gen.INF,) if lb is None else (lb,)))
    else:
        spec = gen.ArraySpec('p', (n // 3, 3), *((-gen.INF,) if lb is None else (lb,)))
        n = spec.vector_size
    if rng.randint(3) == 0:
        half = n // 2
        spec = gen.DictSpec('d', [gen.VectorSpec('a', half, *((-gen.INF,) if lb is None else (lb,))),
                                  gen.VectorSpec('b', n - half, *((-gen.INF,) if lb is None else (lb,)))])
    ctx.struct('{} parameters {}'.format(n, lb))
    par = spec.build()
    A = rng.randn(n, n) / n
    A = 0.5 * (A + A.T) if rng.randint(2) else onp.diag(rng.randn(n))
    c = rng.randn(n)

    def fun(s=1., t=0.5, w=0.7):
        v = par.get_vector()
        return s * 0.5 * np.dot(v, np.dot(A, v)) + w * np.sum(c * np.sin(v)) + t * np.sum(v) ** 2

    def parts(f, is_free):
        """value, gradient and Hessian at f."""
        v, J = (f, onp.ones(n)) if (lb is None or not is_free) else (lb + onp.exp(f), onp.exp(f))
        g = s * onp.dot(A, v) + w * c * onp.cos(v) + 2 * t * onp.sum(v)
        H = s * A - w * onp.diag(c * onp.sin(v)) + 2 * t
        val = s * 0.5 * onp.dot(v, onp.dot(A, v)) + w * onp.sum(c * onp.sin(v)) + t * onp.sum(v) ** 2
        HF = H * onp.outer(J, J)
        if lb is not None and is_free:
            HF = HF + onp.diag(g * J)
        return val, g * J, HF
    obj = obj_lib.Objective(par, fun)
    P = onp.eye(n) + 0.3 * rng.randn(n, n) / onp.sqrt(n)
    for step in range(3):
        args, kw = (), {}
        s, t, w = 1., 0.5, 0.7
        k = rng.randint(4)
        if k >= 1:
            s = float(rng.uniform(0.5, 2.))
            args = (s,)
        if k >= 2:
            t = float(rng.randn())
            args = (s, t)
        elif rng.randint(2):
            t = float(rng.randn())
            kw['t'] = t
        if rng.randint(2):
            w = float(rng.randn())
            kw['w'] = w
        is_free = bool(rng.randint(2))
        name = 'free' if is_free else 'vector'
        f = rng.uniform(-1.5, 1.5, size=n)
        x = f if is_free or lb is None else lb + onp.exp(f)
        val, g, H = parts(x, is_free)
        msg = '{} args {} {} of {}'.format(name, args, kw, spec.describe())
        size = 1e-11 * n * (1 + onp.max(onp.abs(H)) + onp.max(onp.abs(g)))
        ctx.close('value', ctx.call('value', getattr(obj, 'fun_' + name), x, *args, **kw), val, size * n, msg)
        ctx.close('gradient', ctx.call('grad', getattr(obj, 'fun_' + name + '_grad'), x, *args, **kw), g, size, msg)
        got = ctx.call('hessian', getattr(obj, 'fun_' + name + '_hessian'), x, *args, **kw)
        ctx.close('hessian', got, H, size, msg)
        u = rng.randn(n)
        got = ctx.call('hvp', getattr(obj, 'fun_' + name + '_hvp'), x, *(args + (u,)), **kw)
        ctx.close('hvp', got, onp.dot(H, u), 0.005 * size * (1 + onp.max(onp.abs(u))), msg)
        if is_free and step == 0:
            obj.preconditioner = P
            y = onp.linalg.solve(P, x)
            ctx.close('gradient', obj.fun_free_grad_cond(y, *args, **kw), onp.dot(P.T, g), 3 * size, msg + ' conditioned')
            ctx.close('hessian', obj.fun_free_hessian_cond(y, *args, **kw), onp.dot(P.T, onp.dot(H, P)), 10 * size, msg + ' conditioned')
            ctx.close('hvp', obj.fun_free_hvp_cond(y, *(args + (u,)), **kw), onp.dot(P.T, onp.dot(H, onp.dot(P, u))), 10 * n * size, msg + ' conditioned')


class Outside(object):
    """Things a user function reads that are no argument of it: an array, an
    attribute and another parameter, any of which may change at any time."""

    def __init__(self, rng):
        self.rng = rng
        self.data = rng.uniform(0.5, 1.5, size=3)
        self.gain = 1.
        self.other = vb.ScalarParam('other', float(rng.uniform(0.5, 1.5)))
        self.label = 'first'

    def apply(self, val):
        o = float(onp.reshape(self.other.get(), ()))
        return self.gain * val + self.data[0] * o * np.sin(self.data[1] * val) + self.data[2] * val ** 2

    def change(self):
        k = self.rng.randint(5)
        v = float(self.rng.uniform(0.5, 2.))
        self.label = ['data in place', 'data replaced', 'attribute', 'other parameter', 'nothing'][k]
        if k == 0:
            self.data[self.rng.randint(3)] = v
        elif k == 1:
            self.data = self.rng.uniform(0.5, 1.5, size=3)
        elif k == 2:
            self.gain = v
        elif k == 3:
            if self.rng.randint(2):
                self.other.set(v)
            else:
                self.other.set_vector(onp.array([v]))
        return self.label


@scenario('C11', 40)
def outside_state(ctx):
    """The same point again and again, while what the function reads changes
    in between."""
    rng = ctx.rng
    m = Model(ctx, ctx.index, 5)
    out = Outside(rng)

    def fun(*args, **kw):
        return out.apply(m.eval_at(m.par, args, kw))
    obj = obj_lib.Objective(m.par, fun)
    arr = obj_lib.Objective(m.par, lambda *a, **k: np.array([out.apply(m.eval_at(m.par, a, k)), out.gain * m.eval_at(m.par, a, k)]))
    is_free = bool(rng.randint(2))
    name = 'free' if is_free else 'vector'
    x = onp.array(m.point(is_free)[0])
    args, kw = m.rand_args()
    ops = ['', '_grad', '_hessian', '_hvp', '_jacobian']
    op = ops[ctx.index % 5]
    par = m.spec.build()
    put = par.set_free if is_free else par.set_vector
    w = rng.uniform(-1, 1, size=x.size)

    def F(z):
        put(z)
        return out.apply(m.eval_at(par, args, kw))

    def G(z):
        put(z)
        v = m.eval_at(par, args, kw)
        return np.array([out.apply(v), out.gain * v])
    for step in range(6):
        if rng.rand() < 0.3:
            op = ops[rng.randint(5)]
        if rng.rand() < 0.15:
            x = onp.array(m.point(is_free)[0])
        label = out.change() if step else 'first'
        ctx.feat('outside: ' + label)
        y = x if rng.randint(2) else x.copy()
        msg = 'step {} {}{} after {} of {}'.format(step, name, op, label, m.spec.describe())
        if op == '_hvp':
            H = autograd.hessian(F)(x)
            got = ctx.call('hvp', getattr(obj, 'fun_{}_hvp'.format(name)), y, *(args + (w,)), **kw)
            near(ctx, 'hvp', got, onp.dot(H, w), 1 + onp.dot(onp.abs(H), onp.abs(w)), msg, m.mag)
            continue
        if op == '_jacobian':
            want, o = autograd.jacobian(G)(x), arr
        else:
            want, o = {'': lambda f: f, '_grad': autograd.grad, '_hessian': autograd.hessian}[op](F)(x), obj
        got = ctx.call('fun' + op, getattr(o, 'fun_' + name + op), y, *args, **kw)
        near(ctx, {'': 'value', '_grad': 'gradient', '_jacobian': 'jacobian', '_hessian': 'hessian'}[op],
             got, want, 1 + onp.abs(want), msg, m.mag)
        if rng.rand() < 0.3:
            pollute(ctx, m.spec, m.par)


@scenario('C11', 60)
def degenerate_functions(ctx):
    """Functions that are constant, linear or purely quadratic in some members."""
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index, max_free=10, big=False)
    par = spec.build()
    f = functors.point(rng, spec)
    par.set_free(f)
    v = onp.array(par.get_vector())
    n = v.size
    k = ctx.index % 4
    c = rng.randn(n) * 10. ** rng.uniform(-3, 3, size=n)
    c[rng.rand(n) < 0.4] = 0.
    if k == 0:
        fun, g, h = (lambda s=1.: s * np.dot(c, par.get_vector())), c, onp.zeros((n, n))
    elif k == 1:
        fun, g, h = (lambda s=1.: s * np.sum(c * par.get_vector() ** 2)), 2 * c * v, 2 * onp.diag(c)
    elif k == 2:
        i, j = rng.randint(n), rng.randint(n)
        h = onp.zeros((n, n))
        h[i, j] += 1.
        h[j, i] += 1.
        g = onp.zeros(n)
        g[i] += v[j]
        g[j] += v[i]
        fun = lambda s=1.: s * (par.get_vector()[i] * par.get_vector()[j])
    else:
        fun, g, h = (lambda s=1.: s * 3. + 0. * np.sum(par.get_vector())), onp.zeros(n), onp.zeros((n, n))
    obj = obj_lib.Objective(par, fun)
    s = float(rng.uniform(0.5, 2))
    w = any_direction(rng, n)
    msg = 'case {} {}'.format(k, spec.describe())
    ctx.struct(msg)
    near(ctx, 'gradient', ctx.call('grad', obj.fun_vector_grad, v, s), s * g, onp.abs(g), msg)
    near(ctx, 'gradient', ctx.call('grad', obj.fun_vector_grad, v, s=s), s * g, onp.abs(g), msg)
    near(ctx, 'jacobian', ctx.call('jac', obj.fun_vector_jacobian, v, s), s * g, onp.abs(g), msg)
    near(ctx, 'hessian', ctx.call('hess', obj.fun_vector_hessian, v, s), s * h, onp.abs(h), msg)
    near(ctx, 'hvp', ctx.call('hvp', obj.fun_vector_hvp, v, s, w), s * onp.dot(h, w), onp.dot(onp.abs(h), onp.abs(w)), msg)
    J = dense(spec.build().free_to_vector_jac(f))
    T = onp.array([dense(x) for x in spec.build().free_to_vector_hess(f)])
    gf, hf = onp.dot(g, J), onp.dot(J.T, onp.dot(h, J)) + onp.tensordot(g, T, axes=(0, 0))
    sg, sh = onp.dot(onp.abs(g), onp.abs(J)), onp.dot(onp.abs(J).T, onp.dot(onp.abs(h), onp.abs(J))) + onp.tensordot(onp.abs(g), onp.abs(T), axes=(0, 0))
    size = 1e-3 * (onp.max(sg) + onp.max(sh))
    w = any_direction(rng, f.size)
    near(ctx, 'gradient', ctx.call('grad', obj.fun_free_grad, f, s), s * gf, sg + size, msg)
    near(ctx, 'jacobian', ctx.call('jac', obj.fun_free_jacobian, f, s), s * gf, sg + size, msg)
    near(ctx, 'hessian', ctx.call('hess', obj.fun_free_hessian, f, s), s * hf, sh + size, msg)
    near(ctx, 'hvp', ctx.call('hvp', obj.fun_free_hvp, f, s, w), s * onp.dot(hf, w), onp.dot(sh, onp.abs(w)) + size * onp.max(onp.abs(w)), msg)


# ---------------------------------------------------------------- C12

prop('C12', rule='random parameters, user functions and preconditioners (dense and three sparse formats, symmetric and not), including replacement and in-place change between calls; compared with spectral derivatives of y -> f(A y) executed on a twin',
     required=['conditioned value', 'conditioned gradient', 'conditioned hessian', 'conditioned hvp',
               'converted back', 'left at A y', 'refused without preconditioner', 'arguments passed through'],
     assumptions=['as for C11'])


def rand_precond(rng, n):
    kind = rng.randint(9)
    a = onp.eye(n) * rng.uniform(0.6, 1.6, size=n) + 0.35 * rng.randn(n, n) / onp.sqrt(n)
    if kind == 1:
        a = onp.dot(a, a.T)
    if kind == 2:
        a = onp.diag(rng.uniform(0.4, 2., size=n) * rng.choice([-1, 1], size=n))
    if kind == 3:
        a = onp.triu(a) + onp.eye(n)
    if kind == 4:
        a = onp.dot(onp.eye(n)[rng.permutation(n)], onp.diag(rng.uniform(0.5, 2, size=n)))
    if kind >= 5:
        # Nearly special matrices: unit triangular, orthogonal, a multiple of
        # the identity, the identity but for one entry.
        a = onp.eye(n)
        if kind == 5:
            a = a + onp.triu(rng.uniform(-0.5, 0.5, size=(n, n)), 1)
            a = a if rng.randint(2) else a.T
        elif kind == 6:
            a = onp.linalg.qr(rng.randn(n, n))[0]
        elif kind == 7:
            a = float(rng.choice([1., -1., 0.5, 2., 0.25])) * a
        elif n > 1:
            i, j = rng.permutation(n)[:2]
            a[i, j] = rng.uniform(-0.7, 0.7)
    if onp.linalg.cond(a) > 50:
        a = onp.eye(n) + onp.triu(onp.full((n, n), 0.3), 1)
    form = rng.randint(5)
    if form <= 1:
        return a, gen.layout(rng, a), 'dense'
    cls = [scipy.sparse.csr_matrix, scipy.sparse.csc_matrix, scipy.sparse.coo_matrix][form - 2]
    return a, cls(a), cls.__name__


@scenario('C12', 200)
def conditioned(ctx):
    rng = ctx.rng
    m = Model(ctx, ctx.index, 7)
    obj = obj_lib.Objective(m.par, m.user_fun())
    n = m.spec.free_size
    pollute(ctx, m.spec, m.par)
    none = onp.zeros(n)
    if rng.rand() < 0.3:
        for name, a in (('fun_free_cond', (none,)), ('fun_free_grad_cond', (none,)),
                        ('fun_free_hessian_cond', (none,)), ('fun_free_hvp_cond', (none, none))):
            ctx.refused('refused without preconditioner', lambda: getattr(obj, name)(*a), name)
    A = None
    for step in range(int(rng.randint(2, 6))):
        if A is None or rng.rand() < 0.5:
            A, arg, form = rand_precond(rng, n)
            obj.preconditioner = arg
            ctx.feat('preconditioner ' + form)
            ctx.ev('set preconditioner ' + form, A)
        elif rng.rand() < 0.3 and isinstance(obj.preconditioner, onp.ndarray) and obj.preconditioner.flags.writeable:
            obj.preconditioner *= 1.25
            A = onp.array(obj.preconditioner)
            ctx.feat('preconditioner changed in place')
        x, _, r = m.point(True)
        y = onp.linalg.solve(A, x)
        x = onp.dot(A, y)
        args, kw = m.rand_args()
        base = m.plain(True, args, kw)
        phi = lambda z: base(onp.dot(A, z))
        u, w = udir(rng, onp.ones(n)), udir(rng, onp.ones(n))
        size = max(1., onp.max(onp.abs(onp.dot(A, u))), onp.max(onp.abs(onp.dot(A, w))))
        u, w = u / size, w / size
        op = rng.randint(4)
        msg = m.spec.describe()
        m.seen = []
        if op == 0:
            kw2 = dict(kw, verbose=True) if rng.rand() < 0.2 else kw
            obj.logger.callback = lambda l: None
            got = ctx.call('fun_free_cond', obj.fun_free_cond, gen.layout(rng, y), *args, **kw2)
            check_value(ctx, 'conditioned value', got, phi(y), msg)
        elif op == 1:
            G = ctx.call('grad_cond', obj.fun_free_grad_cond, y, *args, **kw)
            d, e = probe(phi, y, u, r, m.mag)
            ctx.check('shape', onp.shape(G) == (n,), lambda: str(onp.shape(G)))
            oracles.compare(ctx, 'conditioned gradient', onp.dot(G, u), d[1], e[1], floor=1e-10, msg=msg)
        elif op == 2:
            H = dense(ctx.call('hess_cond', obj.fun_free_hessian_cond, y, *args, **kw))
            ctx.check('shape', H.shape == (n, n), lambda: str(H.shape))
            d, e = probe(phi, y, u, r, m.mag)
            oracles.compare(ctx, 'conditioned hessian', onp.dot(u, onp.dot(H, u)), d[2], e[2], floor=1e-10, msg=msg)
            want, err = oracles.second_mixed(lambda s, t: phi(y + s * u + t * w), r, mag=m.mag)
            oracles.compare(ctx, 'conditioned hessian', onp.dot(u, onp.dot(H, w)), want, err, floor=1e-10, msg=msg)
        else:
            hv = ctx.call('hvp_cond', obj.fun_free_hvp_cond, y, *(args + (w,)), **kw)
            ctx.check('shape', onp.shape(hv) == (n,), lambda: str(onp.shape(hv)))
            want, err = oracles.second_mixed(lambda s, t: phi(y + s * u + t * w), r, mag=m.mag)
            oracles.compare(ctx, 'conditioned hvp', onp.dot(u, hv), want, err, floor=1e-10, msg=msg)
        m.check_args(args, kw)
        m.twin.set_free(x)
        want = m.spec.get_value(m.twin)
        m.spec.close(ctx, 'left at A y', m.spec.get_value(m.par), want,
                     tree_scale(m.spec.value_tol(want), 100))
        tol = 1e-12 * (1 + onp.max(onp.abs(x)))
        ctx.close('converted back', obj.uncondition_x(y), x, tol)
        ctx.close('converted back', obj.get_conditioned_x(y), x, tol)
    if rng.rand() < 0.3:
        obj.preconditioner = None
        ctx.refused('refused without preconditioner', lambda: obj.fun_free_cond(none), 'after removal')
        ctx.refused('refused without preconditioner', lambda: obj.fun_free_grad_cond(none), 'after removal')


@scenario('C12', 40)
def conditioned_outside_state(ctx):
    """The same conditioned point while the function's surroundings change."""
    rng = ctx.rng
    m = Model(ctx, ctx.index, 5)
    out = Outside(rng)
    obj = obj_lib.Objective(m.par, lambda *a, **k: out.apply(m.eval_at(m.par, a, k)))
    A, arg, form = rand_precond(rng, m.spec.free_size)
    obj.preconditioner = arg
    x = onp.array(m.point(True)[0])
    y = onp.linalg.solve(A, x)
    args, kw = m.rand_args()
    par = m.spec.build()
    w = rng.uniform(-1, 1, size=x.size)

    def F(z):
        par.set_free(np.dot(A, z))
        return out.apply(m.eval_at(par, args, kw))
    op = ctx.index % 4
    for step in range(6):
        if rng.rand() < 0.3:
            op = rng.randint(4)
        label = out.change() if step else 'first'
        msg = 'step {} op {} after {} of {}'.format(step, op, label, m.spec.describe())
        size = m.mag * (1 + onp.max(onp.abs(A)) ** 2)
        if op == 0:
            want = F(y)
            near(ctx, 'conditioned value', ctx.call('cond', obj.fun_free_cond, y, *args, **kw), want, 1 + abs(want), msg, size)
        elif op == 1:
            want = autograd.grad(F)(y)
            near(ctx, 'conditioned gradient', ctx.call('grad_cond', obj.fun_free_grad_cond, y, *args, **kw), want, 1 + onp.max(onp.abs(want)), msg, size)
        else:
            want = autograd.hessian(F)(y)
            if op == 2:
                near(ctx, 'conditioned hessian', dense(ctx.call('hess_cond', obj.fun_free_hessian_cond, y, *args, **kw)), want,
                     1 + onp.max(onp.abs(want)), msg, size)
            else:
                near(ctx, 'conditioned hvp', ctx.call('hvp_cond', obj.fun_free_hvp_cond, y, *(args + (w,)), **kw), onp.dot(want, w),
                     y.size * (1 + onp.max(onp.abs(want))), msg, size)


def tree_scale(tol, k):
    if isinstance(tol, dict):
        return type(tol)((n, tree_scale(t, k)) for n, t in tol.items())
    return k * tol


def change_in_place(rng, arg):
    """Change a dense or sparse matrix where it stands, keeping it invertible."""
    k = 1. + float(rng.choice([0.25, -0.5, 1e-4, 1e-6]))
    if scipy.sparse.issparse(arg):
        if rng.randint(2):
            arg.data *= k
        else:
            arg.data[rng.randint(arg.data.size)] *= k
    elif arg.flags.writeable:
        if rng.randint(2):
            arg *= k
        else:
            i = rng.randint(arg.shape[0])
            arg[i, :] *= k


@scenario('C12', 100)
def preconditioner_histories(ctx):
    """Matrices and points changed in place between calls, nearly repeated
    points and directions of any size, against direct differentiation of
    y -> f(A y) on fresh objects."""
    rng = ctx.rng
    m = Model(ctx, ctx.index, 6, spec=gen.rand_leaf(
        rng, 'par', ['vector', 'array', 'simplex'][rng.randint(3)], wide=False) if ctx.index % 5 == 4 else None)
    obj = obj_lib.Objective(m.par, m.user_fun())
    ref = Reference(m)
    n = m.spec.free_size
    A0, arg, form = rand_precond(rng, n)
    spare = rand_precond(rng, n)[1]
    obj.preconditioner = arg
    buf = onp.zeros(n)
    for step in range(int(rng.randint(3, 6))):
        k = rng.randint(5)
        if step and k == 0:
            change_in_place(rng, arg)
            what = 'changed in place'
        elif step and k == 1:
            arg, spare = spare, arg
            obj.preconditioner = arg
            what = 'replaced by the other one'
        elif step and k == 2:
            arg = copy.deepcopy(arg)
            change_in_place(rng, arg)
            obj.preconditioner = arg
            what = 'replaced by one close by'
        else:
            what = 'left alone'
        ctx.feat(form + ' ' + what)
        A = dense(arg).copy()
        kind = rng.randint(3)
        if kind == 0 or not step:
            buf[:] = onp.linalg.solve(A, m.point(True)[0])
        elif kind == 1:
            buf += 10. ** rng.uniform(-8, -3) * rng.randn(n)
        if onp.max(onp.abs(onp.dot(A, buf))) > 2.1:
            # Keep to moderate points.
            buf[:] = onp.linalg.solve(A, m.point(True)[0])
        y = buf if rng.randint(2) else onp.array(buf)
        args, kw = m.rand_args()
        F = ref.fun(True, args, kw)
        phi = lambda z: F(np.dot(A, z))
        y0 = onp.array(y)
        msg = 'preconditioner {} {}: {}'.format(form, what, m.spec.describe())
        ops = ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond']
        H = autograd.hessian(phi)(y0)
        for op in [ops[i] for i in rng.permutation(4)[:2]]:
            m.seen = []
            if op == ops[3]:
                w = any_direction(rng, n)
                got = ctx.call(op, obj.fun_free_hvp_cond, y, *(args + (w,)), **kw)
                near(ctx, 'conditioned hvp', got, onp.dot(H, w), (onp.max(onp.abs(H)) + 1e-3) * onp.sum(onp.abs(w)), msg, m.mag)
            else:
                got = dense(ctx.call(op, getattr(obj, op), y, *args, **kw))
                want = [phi(y0), autograd.grad(phi)(y0), H][ops.index(op)]
                near(ctx, ['conditioned value', 'conditioned gradient', 'conditioned hessian'][ops.index(op)], got, want,
                     0.1 + onp.max(onp.abs(want)), msg, m.mag)
            m.check_args(args, kw)
        x = onp.dot(A, y0)
        ctx.close('converted back', obj.uncondition_x(y), x, 1e-12 * (1 + onp.max(onp.abs(x))), msg)
        ctx.close('converted back', obj.get_conditioned_x(y), x, 1e-12 * (1 + onp.max(onp.abs(x))), msg)
        m.twin.set_free(x)
        want = m.spec.get_value(m.twin)
        obj.fun_free_cond(y)
        m.seen = []
        m.spec.close(ctx, 'left at A y', m.spec.get_value(m.par), want, tree_scale(m.spec.value_tol(want), 100))


# ---------------------------------------------------------------- C13

prop('C13', rule='random pairs of parameters of different kinds and sizes with a random smooth function coupling them, in every mixture of parameterizations and random call order; gradients and cross Hessians are compared with spectral mixed derivatives of plain executions on twins',
     required=['two-parameter value', 'gradient in first', 'gradient in second', 'cross hessian 12', 'cross hessian 21',
               'mixed cross hessian', 'left at the point', 'arguments passed through'],
     assumptions=['as for C11'])


class Pair(object):
    def __init__(self, ctx, max_free=5):
        rng = ctx.rng
        self.ctx = ctx
        self.m1 = Model(ctx, ctx.index, max_free)
        self.m2 = Model(ctx, ctx.index // 3 + 5, max_free)
        self.c = rng.randn(2, 2)
        self.mag = self.m1.mag + self.m2.mag
        self.seen = []

    def eval_at(self, p1, p2, args, kw):
        a = args[0] if args else 1.3
        b = args[1] if len(args) > 1 else -0.4
        w = kw.get('w', 0.6)
        s = [np.sin(0.4 * fn(p1)) for fn in self.m1.fns] + [self.m1.fns[0](p1)]
        t = [np.tanh(0.4 * fn(p2)) for fn in self.m2.fns] + [self.m2.fns[1](p2)]
        tot = b + 0.2 * s[2] + 0.1 * t[2] ** 2 / (1 + t[2] ** 2)
        for i in range(2):
            for j in range(2):
                tot = tot + a * self.c[i, j] * s[i] * t[j]
        return tot + w * np.sin(0.3 * s[2] * t[0] + 0.2 * t[2])

    def fun(self):
        def fun(*args, **kw):
            self.seen.append((args, dict(kw)))
            return self.eval_at(self.m1.par, self.m2.par, args, kw)
        return fun

    def plain(self, free1, free2, args, kw):
        def phi(x1, x2):
            (self.m1.twin.set_free if free1 else self.m1.twin.set_vector)(x1)
            (self.m2.twin.set_free if free2 else self.m2.twin.set_vector)(x2)
            return float(self.eval_at(self.m1.twin, self.m2.twin, args, kw))
        return phi

    check_args = Model.check_args
    rand_args = Model.rand_args


@scenario('C13', 160, 3000)
def two_parameters(ctx):
    rng = ctx.rng
    P = Pair(ctx)
    obj = obj_lib.TwoParameterObjective(P.m1.par, P.m2.par, P.fun())
    pollute(ctx, P.m1.spec, P.m1.par)
    pollute(ctx, P.m2.spec, P.m2.par)
    calls = ['eval_fun', 'fun_free', 'fun_vector', 'fun_grad1', 'fun_grad2', 'fun_free_hessian12',
             'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21',
             'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2']
    for step in range(4):
        name = calls[(ctx.index * 3 + step) % len(calls)] if step < 3 else calls[rng.randint(len(calls))]
        free1, free2 = bool(rng.randint(2)), bool(rng.randint(2))
        flags = name in ('eval_fun', 'fun_grad1', 'fun_grad2')
        if name == 'fun_hessian_free1_vector2':
            free1, free2 = True, False
        elif name == 'fun_hessian_vector1_free2':
            free1, free2 = False, True
        elif not flags:
            free1 = free2 = 'free' in name
        x1, unit1, r1 = P.m1.point(free1)
        x2, unit2, r2 = P.m2.point(free2)
        r = min(r1, r2)
        args, kw = P.rand_args()
        phi = P.plain(free1, free2, args, kw)
        a = (gen.layout(rng, x1), gen.layout(rng, x2)) + ((gen.flag(rng, free1), gen.flag(rng, free2)) if flags else ()) + args
        P.seen = []
        got = ctx.call(name, getattr(obj, name), *a, **kw)
        P.check_args(args, kw)
        ctx.feat('{} {}{}'.format(name, 'F' if free1 else 'V', 'F' if free2 else 'V'))
        msg = '{} {} / {}'.format(name, P.m1.spec.describe(), P.m2.spec.describe())
        if name in ('eval_fun', 'fun_free', 'fun_vector'):
            check_value(ctx, 'two-parameter value', got, phi(x1, x2), msg)
        elif name in ('fun_grad1', 'fun_grad2'):
            first = name == 'fun_grad1'
            u = udir(rng, unit1 if first else unit2)
            d, e = oracles.derivs(lambda t: phi(x1 + t * u, x2) if first else phi(x1, x2 + t * u), 1, r, mag=P.mag)
            ctx.check('shape', onp.shape(got) == u.shape, msg)
            oracles.compare(ctx, 'gradient in ' + ('first' if first else 'second'),
                            onp.dot(got, u), d[1], e[1], floor=1e-10, msg=msg)
        else:
            flip = name.endswith('21')
            mon = 'cross hessian 21' if flip else 'cross hessian 12' if name.endswith('12') else 'mixed cross hessian'
            shape = (x2.size, x1.size) if flip else (x1.size, x2.size)
            ctx.check('shape', onp.shape(got) == shape, lambda: msg + str(onp.shape(got)))
            for _ in range(2):
                u, w = udir(rng, unit1), udir(rng, unit2)
                want, err = oracles.second_mixed(lambda s, t: phi(x1 + s * u, x2 + t * w), r, mag=P.mag)
                val = onp.dot(w, onp.dot(got, u)) if flip else onp.dot(u, onp.dot(got, w))
                oracles.compare(ctx, mon, val, want, err, floor=1e-10, msg=msg)
        for mm, x, fr in ((P.m1, x1, free1), (P.m2, x2, free2)):
            for path, v in mm.spec.raw(mm.par):
                ctx.check('plain afterwards', is_plain(v), lambda: msg + ' ' + path)
            (mm.twin.set_free if fr else mm.twin.set_vector)(x)
            want = mm.spec.get_value(mm.twin)
            mm.spec.close(ctx, 'left at the point', mm.spec.get_value(mm.par), want, mm.spec.value_tol(want))


class Bilinear:
    """sum_ij phi(x_i - a_i) B_ij phi(y_j - b_j) with phi(t) = t + c t^2, and
    quadratic terms in x and y: gradients vanish exactly where x = a and
    y = b, and the cross derivatives do not."""

    def __init__(self, ctx):
        rng = ctx.rng
        self.n, self.p = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        self.a, self.b = rng.randn(self.n), rng.randn(self.p)
        self.B = rng.randn(self.n, self.p) * 10. ** rng.choice([0., 0., -9., 6.])
        self.c = float(rng.choice([0., 0.5]))
        self.x, self.y = gen.VectorSpec('x', self.n).build(), gen.VectorSpec('y', self.p).build()

    def fun(self, scale=1.):
        s, t = self.x.get() - self.a, self.y.get() - self.b
        return scale * np.dot(s + self.c * s ** 2, np.dot(self.B, t + self.c * t ** 2))

    def point(self, rng):
        """x and y, at the stationary values or away from them."""
        k = rng.randint(4)
        x = onp.array(self.a) if k & 1 else rng.randn(self.n)
        y = onp.array(self.b) if k & 2 else rng.randn(self.p)
        if rng.rand() < 0.2:
            x[rng.randint(self.n)] = self.a[0] if self.n == 1 else rng.randn()
        return x, y

    def derivs(self, x, y):
        s, t = x - self.a, y - self.b
        fs, ft = s + self.c * s ** 2, t + self.c * t ** 2
        ds, dt = 1 + 2 * self.c * s, 1 + 2 * self.c * t
        return (onp.dot(fs, onp.dot(self.B, ft)), ds * onp.dot(self.B, ft), dt * onp.dot(self.B.T, fs),
                ds[:, None] * self.B * dt[None, :], 2 * self.c * onp.diag(onp.dot(self.B, ft)))


@scenario('C13', 60)
def stationary_points(ctx):
    rng = ctx.rng
    P = Bilinear(ctx)
    obj = obj_lib.TwoParameterObjective(P.x, P.y, P.fun)
    ctx.struct('{} by {}'.format(P.n, P.p))
    big = 1e-12 * (1 + P.n + P.p) * onp.max(onp.abs(P.B)) * 50
    for step in range(6):
        x, y = P.point(rng)
        f, gx, gy, C, _ = P.derivs(x, y)
        kw, scale = ({'scale': 2.5}, 2.5) if rng.rand() < 0.3 else ({}, 1.)
        k = rng.randint(8)
        if k == 0:
            ctx.close('two-parameter value', ctx.call('fun_free', obj.fun_free, x, y, **kw), onp.asarray(scale * f), big)
        elif k < 3:
            flags = bool(rng.randint(2)), bool(rng.randint(2))
            name, mon, want = [('fun_grad1', 'gradient in first', gx), ('fun_grad2', 'gradient in second', gy)][k - 1]
            ctx.close(mon, ctx.call(name, getattr(obj, name), x, y, *flags, **kw), scale * want, big)
        else:
            name = ['fun_free_hessian12', 'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21',
                    'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'][rng.randint(6)]
            mon = 'cross hessian 21' if '21' in name else 'cross hessian 12' if '12' in name else 'mixed cross hessian'
            ctx.close(mon, ctx.call(name, getattr(obj, name), x, y, **kw), scale * (C.T if '21' in name else C), big,
                      'at {} {} of {} {}'.format(x, y, P.a, P.b))
        ctx.same('left at the point', P.x.get(), x)
        ctx.same('left at the point', P.y.get(), y)


@scenario('C11', 60)
def stationary_objective(ctx):
    """Where the gradient, or the function itself, is exactly zero."""
    rng = ctx.rng
    P = Bilinear(ctx)
    D = gen.DictSpec('d', [gen.VectorSpec('x', P.n), gen.VectorSpec('y', P.p)])
    par = D.build()
    P.x, P.y = par['x'], par['y']
    obj = obj_lib.Objective(par, P.fun)
    ctx.struct('{} and {}'.format(P.n, P.p))
    big = 1e-12 * (1 + P.n + P.p) * onp.max(onp.abs(P.B)) * 50
    for step in range(6):
        x, y = P.point(rng)
        z = onp.concatenate([x, y])
        f, gx, gy, C, Hxx = P.derivs(x, y)
        Hyy = 2 * P.c * onp.diag(onp.dot(P.B.T, (x - P.a) + P.c * (x - P.a) ** 2))
        H = onp.vstack([onp.hstack([Hxx, C]), onp.hstack([C.T, Hyy])])
        name = ['free', 'vector'][rng.randint(2)]
        k = rng.randint(5)
        mon = name + ' '
        if k == 0:
            ctx.close(mon + 'value', ctx.call('fun', getattr(obj, 'fun_' + name), z), onp.asarray(f), big)
        elif k == 1:
            ctx.close(mon + 'gradient', ctx.call('grad', getattr(obj, 'fun_' + name + '_grad'), z), onp.concatenate([gx, gy]), big)
        elif k == 2:
            ctx.close(mon + 'hessian', ctx.call('hess', getattr(obj, 'fun_' + name + '_hessian'), z), H, big)
        elif k == 3:
            ctx.close(mon + 'jacobian', ctx.call('jac', getattr(obj, 'fun_' + name + '_jacobian'), z), onp.concatenate([gx, gy]), big)
        else:
            v = rng.randn(z.size) * rng.choice([0., 1., 1.])
            ctx.close(mon + 'hvp', ctx.call('hvp', getattr(obj, 'fun_' + name + '_hvp'), z, v), onp.dot(H, v), big * 5)


@scenario('C12', 60)
def preconditioner_scales(ctx):
    """Preconditioners of every magnitude, and ones that are very nearly but
    not symmetric, against matrix products."""
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    par = gen.VectorSpec('x', n).build()
    Q = rng.randn(n, n)
    Q, b = onp.dot(Q, Q.T) + onp.eye(n), rng.randn(n)
    obj = obj_lib.Objective(par, lambda scale=1.: scale * (0.5 * np.dot(par.get(), np.dot(Q, par.get())) + np.dot(b, par.get())))
    ctx.struct('{}'.format(n))
    for step in range(3):
        A = rng.randn(n, n)
        k = rng.randint(4)
        if k == 0:
            A = A * 10. ** rng.uniform(-12, 8)
        elif k == 1:
            A = A + A.T + rng.randn(n, n) * 10. ** rng.uniform(-9, -3)
        elif k == 2:
            A = 10. ** rng.uniform(-6, 6, size=n)[:, None] * A
        else:
            A = onp.eye(n) + rng.randn(n, n) * 10. ** rng.uniform(-9, -3)
        obj.preconditioner = A.copy() if rng.randint(2) else scipy.sparse.csr_matrix(A)
        y = rng.randn(n)
        x = onp.dot(A, y)
        S = onp.abs(A)
        ax = onp.dot(S, onp.abs(y))
        gmag = onp.dot(onp.abs(Q), ax) + onp.abs(b)
        g = onp.dot(Q, x) + b
        msg = 'A = {}'.format(A)
        t = 1e-13 * n
        ctx.close('conditioned value', ctx.call('fun_free_cond', obj.fun_free_cond, y), onp.asarray(0.5 * onp.dot(x, onp.dot(Q, x)) + onp.dot(b, x)),
                  t * onp.dot(ax, gmag), msg)
        ctx.close('conditioned gradient', ctx.call('grad_cond', obj.fun_free_grad_cond, y), onp.dot(A.T, g), t * onp.dot(S.T, gmag), msg)
        H = dense(ctx.call('hess_cond', obj.fun_free_hessian_cond, y))
        ctx.close('conditioned hessian', H, onp.dot(A.T, onp.dot(Q, A)), t * onp.dot(S.T, onp.dot(onp.abs(Q), S)), msg)
        v = rng.randn(n)
        ctx.close('conditioned hvp', ctx.call('hvp_cond', obj.fun_free_hvp_cond, y, v), onp.dot(A.T, onp.dot(Q, onp.dot(A, v))),
                  t * onp.dot(S.T, onp.dot(onp.abs(Q), onp.dot(S, onp.abs(v)))), msg)
        ctx.close('left at A y', par.get(), x, t * ax, msg)
        ctx.close('converted back', obj.uncondition_x(y), x, t * ax, msg)


@scenario('C13', 60)
def two_parameter_histories(ctx):
    """Nearly repeated points and reused arrays, against direct
    differentiation on fresh objects."""
    rng = ctx.rng
    P = Pair(ctx)
    obj = obj_lib.TwoParameterObjective(P.m1.par, P.m2.par, P.fun())
    free1, free2 = bool(rng.randint(2)), bool(rng.randint(2))
    points2 = list((l, onp.array(x)) for l, x in hostile_points(rng, P.m2, free2))
    buf2 = onp.array(points2[0][1])
    for (l1, x1), (l2, x2) in zip(hostile_points(rng, P.m1, free1), points2):
        if rng.rand() < 0.3:
            # Only one of the two points changes.
            l2 = 'unchanged'
        else:
            buf2[:] = x2
        args, kw = P.rand_args()
        p1, p2 = P.m1.spec.build(), P.m2.spec.build()

        def F(z1, z2):
            (p1.set_free if free1 else p1.set_vector)(z1)
            (p2.set_free if free2 else p2.set_vector)(z2)
            return P.eval_at(p1, p2, args, kw)
        y1, y2 = onp.array(x1), onp.array(buf2)
        msg = '{} / {}: {} / {}'.format(l1, l2, P.m1.spec.describe(), P.m2.spec.describe())
        P.seen = []
        mag = P.mag
        got = ctx.call('eval_fun', obj.eval_fun, x1, buf2, free1, free2, *args, **kw)
        near(ctx, 'two-parameter value', got, F(y1, y2), 0.1 + abs(F(y1, y2)), msg, mag)
        k = rng.randint(3)
        if k == 0:
            want = autograd.grad(F)(y1, y2)
            near(ctx, 'gradient in first', ctx.call('grad1', obj.fun_grad1, x1, buf2, free1, free2, *args, **kw), want,
                 0.1 + onp.abs(want), msg, mag)
        elif k == 1:
            want = autograd.grad(F, 1)(y1, y2)
            near(ctx, 'gradient in second', ctx.call('grad2', obj.fun_grad2, x1, buf2, free1, free2, *args, **kw), want,
                 0.1 + onp.abs(want), msg, mag)
        else:
            names = {(True, True): ['fun_free_hessian12', 'fun_free_hessian21'],
                     (False, False): ['fun_vector_hessian12', 'fun_vector_hessian21'],
                     (True, False): ['fun_hessian_free1_vector2'], (False, True): ['fun_hessian_vector1_free2']}[(free1, free2)]
            name = names[rng.randint(len(names))]
            want = autograd.jacobian(autograd.grad(F), 1)(y1, y2)
            if name.endswith('21'):
                want = want.T
            mon = 'cross hessian 21' if name.endswith('21') else 'cross hessian 12' if name.endswith('12') else 'mixed cross hessian'
            near(ctx, mon, ctx.call(name, getattr(obj, name), x1, buf2, *args, **kw), want, 0.1 + onp.abs(want), msg + name, mag)
        P.check_args(args, kw)


@scenario('C13', 40)
def two_parameters_outside_state(ctx):
    """The same pair of points while the function's surroundings change."""
    rng = ctx.rng
    P = Pair(ctx, 4)
    out = Outside(rng)
    obj = obj_lib.TwoParameterObjective(P.m1.par, P.m2.par, lambda *a, **k: out.apply(P.eval_at(P.m1.par, P.m2.par, a, k)))
    free1, free2 = bool(rng.randint(2)), bool(rng.randint(2))
    x1, x2 = onp.array(P.m1.point(free1)[0]), onp.array(P.m2.point(free2)[0])
    args, kw = P.rand_args()
    p1, p2 = P.m1.spec.build(), P.m2.spec.build()

    def F(z1, z2):
        (p1.set_free if free1 else p1.set_vector)(z1)
        (p2.set_free if free2 else p2.set_vector)(z2)
        return out.apply(P.eval_at(p1, p2, args, kw))
    names = {(True, True): ['fun_free_hessian12', 'fun_free_hessian21'],
             (False, False): ['fun_vector_hessian12', 'fun_vector_hessian21'],
             (True, False): ['fun_hessian_free1_vector2'] * 2, (False, True): ['fun_hessian_vector1_free2'] * 2}[(free1, free2)]
    op = ctx.index % 5
    for step in range(6):
        if rng.rand() < 0.3:
            op = rng.randint(5)
        label = out.change() if step else 'first'
        msg = 'step {} op {} after {}: {} / {}'.format(step, op, label, P.m1.spec.describe(), P.m2.spec.describe())
        if op == 0:
            want = F(x1, x2)
            near(ctx, 'two-parameter value', ctx.call('eval_fun', obj.eval_fun, x1, x2, free1, free2, *args, **kw), want, 1 + abs(want), msg, P.mag)
        elif op < 3:
            want = autograd.grad(F, op - 1)(x1, x2)
            near(ctx, 'gradient in ' + ['first', 'second'][op - 1],
                 ctx.call('grad', getattr(obj, 'fun_grad{}'.format(op)), x1, x2, free1, free2, *args, **kw), want, 1 + onp.abs(want), msg, P.mag)
        else:
            name = names[op - 3]
            want = autograd.jacobian(autograd.grad(F), 1)(x1, x2)
            want = want.T if name.endswith('21') else want
            mon = 'cross hessian 21' if name.endswith('21') else 'cross hessian 12' if name.endswith('12') else 'mixed cross hessian'
            near(ctx, mon, ctx.call(name, getattr(obj, name), x1, x2, *args, **kw), want, 1 + onp.abs(want), msg, P.mag)


# ---------------------------------------------------------------- C14

prop('C14', rule='random pairs of parameters and random smooth conversions written through values, vectors and free vectors; all four converter functions and Jacobians are compared with executions and spectral derivatives of a twin conversion',
     required=['converter value', 'converter jacobian', 'input left at the point', 'output unchanged'],
     assumptions=['as for C11'])


class Conversion(object):
    def __init__(self, ctx, max_free=6):
        rng = ctx.rng
        self.m = Model(ctx, ctx.index, max_free)
        self.o = Model(ctx, ctx.index // 2 + 3, max_free)
        spec = self.o.spec
        self.style = int(rng.randint(3))
        if any(l.kind == 'subspace' for _, l in spec.leaves()):
            # A legal value is orthogonal, so go through the free value.
            self.style = 0
        if any(l.kind == 'simplex' for _, l in spec.leaves()) and self.style != 0:
            self.style = 0
        ctx.feat('conversion style {}'.format(self.style))
        self.b = rng.randn(spec.free_size if self.style == 0 else spec.vector_size, 2)
        self.v0 = spec.pack(self.o.value0)
        self.marg = functors.vec_margin(spec, self.o.value0)
        self.f0 = self.o.f0

    def convert(self, pin, pout):
        z = [np.sin(0.5 * fn(pin)) for fn in self.m.fns]
        z = np.array([z[0], z[1] + 0.2 * z[0] ** 2])
        y = np.tanh(np.dot(self.b, z))
        if self.style == 0:
            pout.set_free(self.f0 + 0.5 * y)
        elif self.style == 1:
            pout.set_vector(self.v0 + 0.5 * self.marg * y)
        else:
            vec = self.v0 + 0.5 * self.marg * y
            o = 0
            for (path, leaf), p in zip(self.o.spec.leaves(), self.o.spec.leaf_objs(pout)):
                block = vec[o:o + leaf.vector_size]
                o += leaf.vector_size
                if leaf.kind == 'scalar':
                    p.set(block[0])
                elif leaf.kind in ('vector', 'array'):
                    p.set(np.reshape(block, leaf.shape))
                elif leaf.kind == 'posdef':
                    p.set(sym(block, leaf.k))
                else:
                    mats = [sym(block[i:i + leaf.block], leaf.k)
                            for i in range(0, leaf.vector_size, leaf.block)]
                    p.set(np.reshape(np.array(mats), leaf.shape))


def sym(block, k):
    ind = onp.zeros((k, k), dtype=int)
    for n, (i, j) in enumerate(gen.tril_pairs(k)):
        ind[i, j] = ind[j, i] = n
    return block[ind]


@scenario('C14', 160)
def conversions(ctx):
    rng = ctx.rng
    C = Conversion(ctx)
    m, o = C.m, C.o
    conv = obj_lib.ParameterConverter(m.par, o.par, lambda: C.convert(m.par, o.par))
    pollute(ctx, m.spec, m.par)
    for step in range(4):
        pollute(ctx, o.spec, o.par)
        fin, fout = bool((ctx.index + step) & 1), bool(((ctx.index + step) >> 1) & 1)
        x, unit, r = m.point(fin)

        def phi(z):
            (m.twin.set_free if fin else m.twin.set_vector)(z)
            C.convert(m.twin, o.twin)
            return onp.array(o.twin.get_free() if fout else o.twin.get_vector(), float)

        want = phi(x)
        name = '{}_to_{}'.format('free' if fin else 'vec', 'free' if fout else 'vec')
        msg = '{} {} -> {}'.format(name, m.spec.describe(), o.spec.describe())
        ctx.feat(name)
        if rng.rand() < 0.6:
            got = ctx.call('converter', getattr(conv, 'converter_' + name), gen.layout(rng, x))
            ctx.close('converter value', got, want, 1e-9 * (1 + onp.max(onp.abs(want))), msg)
            pollute(ctx, o.spec, o.par)
        before = o.spec.get_value(o.par)
        J = ctx.call('jacobian', getattr(conv, name + '_jacobian'), gen.layout(rng, x))
        after = o.spec.get_value(o.par)
        for path, v in o.spec.raw(o.par) + m.spec.raw(m.par):
            ctx.check('plain afterwards', is_plain(v), lambda: msg + ' ' + path)
        o.spec.same(ctx, 'output unchanged', after, before)
        (m.twin.set_free if fin else m.twin.set_vector)(x)
        wv = m.spec.get_value(m.twin)
        m.spec.close(ctx, 'input left at the point', m.spec.get_value(m.par), wv, m.spec.value_tol(wv))
        ctx.check('shape', onp.shape(J) == (want.size, x.size), lambda: msg + str(onp.shape(J)))
        size = 1 + onp.max(onp.abs(want))
        if fout:
            size = size * float(onp.max((onp.abs(C.v0) + 1) / C.marg))
        u = udir(rng, unit)
        d, e = oracles.derivs(lambda t: phi(x + t * u), 1, r, mag=m.mag * size)
        oracles.compare(ctx, 'converter jacobian', onp.dot(J, u), d[1], e[1], floor=1e-10, msg=msg)


@scenario('C14', 60)
def conversion_histories(ctx):
    """Nearly repeated inputs and reused arrays, with the output parameter set
    to something else in between, against fresh objects."""
    rng = ctx.rng
    C = Conversion(ctx)
    m, o = C.m, C.o
    conv = obj_lib.ParameterConverter(m.par, o.par, lambda: C.convert(m.par, o.par))
    fin = bool(rng.randint(2))
    for label, x in hostile_points(rng, m, fin):
        fout = bool(rng.randint(2))
        pin, pout = m.spec.build(), o.spec.build()

        def F(z):
            (pin.set_free if fin else pin.set_vector)(z)
            C.convert(pin, pout)
            return pout.get_free() if fout else pout.get_vector()
        y = onp.array(x)
        want, J = F(y), autograd.jacobian(F)(y)
        size = 1 + onp.max(onp.abs(want))
        if fout:
            size = size * float(onp.max((onp.abs(C.v0) + 1) / C.marg))
        name = '{}_to_{}'.format('free' if fin else 'vec', 'free' if fout else 'vec')
        msg = '{} {}: {} -> {}'.format(name, label, m.spec.describe(), o.spec.describe())
        if rng.randint(2):
            pollute(ctx, o.spec, o.par)
        got = ctx.call('converter', getattr(conv, 'converter_' + name), x)
        near(ctx, 'converter value', got, want, 0.1 + onp.abs(want), msg, m.mag * size)
        got = ctx.call('jacobian', getattr(conv, name + '_jacobian'), x)
        near(ctx, 'converter jacobian', got, J, 0.1 + onp.abs(J), msg, m.mag * size)


@scenario('C14', 40)
def conversion_outside_state(ctx):
    """The same input while what the conversion reads changes."""
    rng = ctx.rng
    C = Conversion(ctx, 5)
    m, o = C.m, C.o
    b0, f0, v0 = C.b, C.f0, C.v0

    def change():
        k = rng.randint(4)
        if k == 0:
            C.b[rng.randint(C.b.shape[0])] *= -0.5
        elif k == 1:
            C.b = 0.7 * C.b[:, ::-1]
        elif k == 2:
            C.f0 = f0 + rng.uniform(-0.1, 0.1, size=f0.size)
            C.v0 = v0 + 0.1 * C.marg * rng.uniform(-1, 1, size=v0.size) if C.style else v0
        return ['in place', 'replaced', 'offset', 'nothing'][k]
    conv = obj_lib.ParameterConverter(m.par, o.par, lambda: C.convert(m.par, o.par))
    fin, fout = bool(rng.randint(2)), bool(rng.randint(2))
    x = onp.array(m.point(fin)[0])
    pin, pout = m.spec.build(), o.spec.build()
    for step in range(5):
        if rng.rand() < 0.2:
            fout = not fout
        label = change() if step else 'first'

        def F(z):
            (pin.set_free if fin else pin.set_vector)(z)
            C.convert(pin, pout)
            return pout.get_free() if fout else pout.get_vector()
        want, J = F(x), autograd.jacobian(F)(x)
        size = 1 + onp.max(onp.abs(want))
        if fout:
            size = size * float(onp.max((onp.abs(C.v0) + 1) / C.marg))
        name = '{}_to_{}'.format('free' if fin else 'vec', 'free' if fout else 'vec')
        msg = '{} after {}: {} -> {}'.format(name, label, m.spec.describe(), o.spec.describe())
        ctx.feat('outside: ' + label)
        if rng.randint(2):
            near(ctx, 'converter value', ctx.call('converter', getattr(conv, 'converter_' + name), x), want, 0.1 + onp.abs(want), msg, m.mag * size)
        near(ctx, 'converter jacobian', ctx.call('jacobian', getattr(conv, name + '_jacobian'), x), J, 0.1 + onp.abs(J), msg, m.mag * size)


@scenario('C13', 50)
def shared_points(ctx):
    """One array given for both parameters; closed form for a bilinear
    function."""
    rng = ctx.rng
    n = int(rng.randint(1, 5))
    lbs = [[-onp.inf, 0.][rng.randint(2)] for _ in (0, 1)]
    p1, p2 = [vb.VectorParam('p{}'.format(k), n, lb=lbs[k]) for k in (0, 1)]
    B = rng.randn(n, n)
    obj = obj_lib.TwoParameterObjective(p1, p2, lambda scale=1.: scale * np.dot(p1.get(), np.dot(B, p2.get())))
    ctx.struct('{} {}'.format(n, lbs))
    x = rng.uniform(0.3, 2., size=n)
    for step in range(8):
        if rng.rand() < 0.3:
            x[:] = rng.uniform(0.3, 2., size=n)
        args = [(x, x), (x, x[:]), (x.copy(), x), (x, x.copy()), (x[::-1], x)][rng.randint(5)]
        k = rng.randint(8)
        name = ['eval_fun', 'fun_grad1', 'fun_grad2', 'fun_free', 'fun_vector'][k] if k < 5 else \
               ['fun_free_hessian12', 'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21',
                'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'][rng.randint(6)]
        flags = [bool(rng.randint(2)), bool(rng.randint(2))]
        if k >= 3:
            flags = [name in ('fun_free', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_hessian_free1_vector2'),
                     name in ('fun_free', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_hessian_vector1_free2')]
        vals, jacs = [], []
        for a, lb, free in zip(args, lbs, flags):
            bent = free and lb == 0.
            vals.append(onp.exp(a) if bent else onp.array(a))
            jacs.append(vals[-1] if bent else onp.ones(n))
        kw, scale = ({'scale': 2.5}, 2.5) if rng.rand() < 0.3 else ({}, 1.)
        cross = scale * jacs[0][:, None] * B * jacs[1][None, :]
        want, mon = {'fun_grad1': (scale * jacs[0] * onp.dot(B, vals[1]), 'gradient in first'),
                     'fun_grad2': (scale * jacs[1] * onp.dot(B.T, vals[0]), 'gradient in second')}.get(
                         name, (onp.asarray(scale * onp.dot(vals[0], onp.dot(B, vals[1]))), 'two-parameter value'))
        if 'hessian' in name:
            want, mon = (cross.T, 'cross hessian 21') if '21' in name else (cross, 'cross hessian 12')
        keep = onp.array(args[0]), onp.array(args[1])
        got = ctx.call(name, getattr(obj, name), *(tuple(args) + (tuple(flags) if k < 3 else ())), **kw)
        ctx.close(mon, got, want, 1e-10, '{} {} at {}'.format(name, flags, keep))
        for p, v, a, b in zip((p1, p2), vals, args, keep):
            ctx.close('left at the point', p.get(), v, 1e-12 * onp.abs(v), name)
            ctx.same('left at the point', a, b, name)


@scenario('C14', 60)
def near_diagonal(ctx):
    """Linear conversions whose coefficients differ by many orders of
    magnitude, every entry of the Jacobian to relative precision."""
    rng = ctx.rng
    n = int(rng.randint(1, 6))
    m = n if rng.rand() < 0.6 else int(rng.randint(1, 6))
    M = 10. ** rng.uniform(-14, -6, size=(m, n))
    if rng.rand() < 0.3:
        M = 10. ** rng.uniform(-14, 3, size=(m, n))
    if rng.rand() < 0.2:
        M = M * (rng.rand(m, n) < 0.5)
    for i in range(m):
        M[i, i % n] = rng.uniform(0.5, 2.)
    if rng.rand() < 0.2:
        M = M * 10. ** rng.uniform(-12, 6)
    pin, pout = vb.VectorParam('in', n, lb=0.), vb.VectorParam('out', m, lb=0.)
    conv = obj_lib.ParameterConverter(pin, pout, lambda: pout.set(np.dot(M, pin.get())))
    ctx.struct('{} by {}'.format(m, n))
    for step in range(4):
        fin, fout = bool(rng.randint(2)), bool(rng.randint(2))
        v = rng.uniform(0.3, 2., size=n)
        x = onp.log(v) if fin else v
        y = onp.dot(M, v)
        want = M * (v[None, :] if fin else 1.) / (y[:, None] if fout else 1.)
        before = rng.uniform(0.5, 2., size=m)
        pout.set_vector(before)
        name = '{}_to_{}'.format('free' if fin else 'vec', 'free' if fout else 'vec')
        J = ctx.call('jacobian', getattr(conv, name + '_jacobian'), x.copy())
        ctx.close('converter jacobian', J, want, 1e-11 * want, name)
        ctx.same('output unchanged', pout.get(), before)
        got = ctx.call('converter', getattr(conv, 'converter_' + name), x.copy())
        ctx.close('converter value', got, onp.log(y) if fout else y, 1e-12 * (1 + onp.abs(onp.log(y))) if fout else 1e-12 * y, name)
