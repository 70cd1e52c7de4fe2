"""C15, C16, C33: state left behind, independence of objects, caller-owned arrays."""
import copy
import numpy as onp
import autograd.numpy as np
import scipy.sparse
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.Parameters as par_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.ModelSensitivity as sens_lib
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as modeling
import LinearResponseVariationalBayes.regression_utils as reg

from core import scenario, prop, is_plain
import gen
import functors
from props.params import pollute
from props.transforms import dense
from props.objectives import Model, Pair, rand_precond, tree_scale

# ---------------------------------------------------------------- C15

prop('C15', rule='random sequences of value and derivative evaluations through objectives, two-parameter and preconditioned objectives sharing parameters, and of transform derivatives; after every step the parameters involved are inspected and the others are compared with their state before',
     required=['plain afterwards', 'at the evaluation point', 'plain after transform derivative', 'bystander unchanged', 'usable afterwards'],
     assumptions=['the value encoded by a point is that of a twin parameter of the same specification set to the point'])


def at_point(ctx, m, x, is_free, msg):
    for path, v in m.spec.raw(m.par):
        ctx.check('plain afterwards', is_plain(v), lambda: '{} {}: {!r}'.format(msg, path, v))
    (m.twin.set_free if is_free else m.twin.set_vector)(onp.array(x))
    want = m.spec.get_value(m.twin)
    m.spec.close(ctx, 'at the evaluation point', m.spec.get_value(m.par), want,
                 tree_scale(m.spec.value_tol(want), 10), msg)


def snapshot(spec, obj):
    """Everything observable about the state, exactly."""
    out = [onp.array(obj.get_vector()), onp.array([obj.free_size(), obj.vector_size()])]
    for path, v in spec.raw(obj):
        out.append(onp.array(v, copy=True))
    return out


def same_snapshot(ctx, monitor, a, b, msg):
    ctx.check(monitor, len(a) == len(b), msg)
    for x, y in zip(a, b):
        ctx.same(monitor, x, y, msg)


@scenario('C15', 120)
def evaluation_histories(ctx):
    rng = ctx.rng
    P = Pair(ctx, 5)
    m1, m2 = P.m1, P.m2
    # Sometimes one parameter reads its own free vector inside the function.
    self_free = rng.rand() < 0.3
    base_fun = P.fun()
    joint = obj_lib.TwoParameterObjective(m1.par, m2.par, base_fun)
    single_fun = m1.user_fun()
    if self_free:
        ctx.feat('function reads the free vector')
        single = obj_lib.Objective(m1.par, lambda *a, **k: single_fun(*a, **k) + np.sum(m1.par.get_free() ** 2))
    else:
        single = obj_lib.Objective(m1.par, single_fun)
    A, arg, form = rand_precond(rng, m1.spec.free_size)
    single.preconditioner = arg
    single.logger.callback = lambda l: None
    bystanders = []
    for spec in (m1.spec, m2.spec, gen.rand_leaf(rng, 'z')):
        o = spec.build()
        o.set_free(gen.rand_free(rng, spec))
        bystanders.append((spec, o))
    n1 = m1.spec.free_size
    for step in range(int(rng.randint(5, 9))):
        states = [snapshot(s, o) for s, o in bystanders]
        kind = rng.randint(4) if step else ctx.index % 4
        if kind == 0:
            before2 = snapshot(m2.spec, m2.par)
            is_free = bool(rng.randint(2))
            x, unit, r = m1.point(is_free)
            name = 'free' if is_free else 'vector'
            op = ['', '_grad', '_hessian', '_jacobian', '_hvp'][rng.randint(5)]
            a = (x,)
            if op == '_hvp':
                d = onp.sin(onp.arange(x.size) + 1.) * unit
                # Along a coordinate, or nowhere at all.
                how = rng.randint(4)
                if how == 0:
                    d = d * 0.
                elif how == 1 and d.size:
                    d = d * (onp.arange(d.size) == rng.randint(d.size))
                a = (x, d)
            msg = 'fun_{}{} {}'.format(name, op, m1.spec.describe())
            ctx.call(msg, getattr(single, 'fun_' + name + op), *a)
            ctx.feat('fun_' + name + op)
            at_point(ctx, m1, x, is_free, msg)
            same_snapshot(ctx, 'bystander unchanged', snapshot(m2.spec, m2.par), before2, msg)
        elif kind == 1:
            before2 = snapshot(m2.spec, m2.par)
            x, _, _ = m1.point(True)
            y = onp.linalg.solve(A, x)
            op = ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond'][rng.randint(4)]
            a = (y, onp.ones(n1) * rng.randint(2)) if 'hvp' in op else (y,)
            ctx.call(op, getattr(single, op), *a)
            ctx.feat(op)
            at_point(ctx, m1, onp.dot(A, y), True, op + ' ' + m1.spec.describe())
            same_snapshot(ctx, 'bystander unchanged', snapshot(m2.spec, m2.par), before2, op)
        elif kind == 2:
            names = ['eval_fun', 'fun_free', 'fun_vector', 'fun_grad1', 'fun_grad2', 'fun_free_hessian12',
                     'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21',
                     'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2']
            name = names[rng.randint(len(names))]
            flags = name in ('eval_fun', 'fun_grad1', 'fun_grad2')
            f1, f2 = {'fun_hessian_free1_vector2': (True, False), 'fun_hessian_vector1_free2': (False, True)}.get(
                name, ('free' in name, 'free' in name))
            if flags:
                f1, f2 = bool(rng.randint(2)), bool(rng.randint(2))
            x1, x2 = m1.point(f1)[0], m2.point(f2)[0]
            ctx.call(name, getattr(joint, name), x1, x2, *((f1, f2) if flags else ()))
            ctx.feat(name)
            msg = '{} {} {} {}'.format(name, f1, f2, m1.spec.describe())
            at_point(ctx, m1, x1, f1, msg)
            at_point(ctx, m2, x2, f2, msg)
        else:
            m = (m1, m2)[rng.randint(2)]
            f = gen.rand_free(rng, m.spec).clip(-2, 2)
            op = rng.randint(3)
            if op == 0:
                ctx.call('free_to_vector_jac', m.par.free_to_vector_jac, f)
            elif op == 1:
                ctx.call('free_to_vector_hess', m.par.free_to_vector_hess, f)
            else:
                v = m.spec.vector_size
                ctx.call('convert', par_lib.convert_vector_to_free_hessian, m.par, f, onp.ones(v), onp.eye(v))
            for path, v in m.spec.raw(m.par):
                ctx.check('plain after transform derivative', is_plain(v), lambda: '{} {!r}'.format(path, v))
        for (s, o), st in zip(bystanders, states):
            same_snapshot(ctx, 'bystander unchanged', snapshot(s, o), st, s.describe())
        # The parameters can be read and set as usual.
        for m in (m1, m2):
            for v in (m.par.get_vector(), m.par.get_free()):
                ctx.check('usable afterwards', is_plain(v) and onp.all(onp.isfinite(v)), lambda: repr(v))
            copy.deepcopy(m.par)


@scenario('C15', 40)
def same_array(ctx):
    """One array given for both parameters, or as point and direction."""
    rng = ctx.rng
    m1 = Model(ctx, ctx.index, 5)
    m2 = Model(ctx, ctx.index, 5, spec=m1.spec)
    joint = obj_lib.TwoParameterObjective(
        m1.par, m2.par, lambda: m1.eval_at(m1.par, (), {}) * (1. + 0.3 * m2.eval_at(m2.par, (), {})))
    single = obj_lib.Objective(m1.par, lambda: m1.eval_at(m1.par, (), {}))
    single.preconditioner = onp.eye(m1.spec.free_size)
    names = ['eval_fun', 'fun_free', 'fun_vector', 'fun_grad1', 'fun_grad2', 'fun_free_hessian12',
             'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21', 'hvp', 'hvp']
    for step in range(4):
        name = names[(ctx.index + 3 * step) % len(names)]
        free = 'free' in name or ('vector' not in name and bool(rng.randint(2)))
        x = m1.point(free)[0]
        msg = '{} with one array, {}: {}'.format(name, free, m1.spec.describe())
        if name == 'hvp':
            op = ('fun_free_hvp_cond' if rng.randint(2) else 'fun_free_hvp') if free else 'fun_vector_hvp'
            ctx.call(op, getattr(single, op), x, x)
        else:
            flags = name in ('eval_fun', 'fun_grad1', 'fun_grad2')
            ctx.call(name, getattr(joint, name), x, x, *((free, free) if flags else ()))
            at_point(ctx, m2, x, free, msg)
        at_point(ctx, m1, x, free, msg)
        for m in (m1, m2):
            for v in (m.par.get_vector(), m.par.get_free()):
                ctx.check('usable afterwards', is_plain(v) and onp.all(onp.isfinite(v)), lambda: repr(v))


@scenario('C15', 60)
def non_finite(ctx):
    """Values and derivatives that are infinite or not numbers."""
    rng = ctx.rng
    m1, m2 = Model(ctx, ctx.index, 5), Model(ctx, ctx.index // 2, 5)
    w = onp.ones(m1.spec.vector_size)
    w[rng.randint(w.size)] = rng.choice([onp.nan, onp.inf, 0.])
    w2 = float(rng.choice([1., 1., onp.nan, onp.inf]))
    style = rng.randint(3)

    def part(par):
        s = np.sum(w * par.get_vector())
        # At zero the value of the second is finite and its derivative is not.
        z = np.sum(par.get_vector() * 0.)
        return [s, np.sqrt(z * z), s * z][style] + m1.eval_at(par, (), {})
    single = obj_lib.Objective(m1.par, lambda: part(m1.par))
    single.preconditioner = onp.eye(m1.spec.free_size)
    single.logger.callback = lambda l: None
    joint = obj_lib.TwoParameterObjective(m1.par, m2.par, lambda: part(m1.par) * (1. + w2 * m2.eval_at(m2.par, (), {})))
    names = ['fun_grad1', 'fun_grad2', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_vector_hessian12', 'fun_vector_hessian21',
             'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2', 'fun_free', 'fun_vector']
    one = ['fun_free', 'fun_vector', 'fun_free_grad', 'fun_vector_grad', 'fun_free_hessian', 'fun_vector_hessian', 'fun_free_hvp',
           'fun_vector_hvp', 'fun_free_jacobian', 'fun_vector_jacobian', 'fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond']
    bad = 0
    with onp.errstate(all='ignore'):
        for step in range(5):
            if rng.rand() < 0.6:
                before = snapshot(m2.spec, m2.par)
                name = one[(ctx.index + 3 * step) % len(one)]
                free = 'free' in name
                x, unit, _ = m1.point(free)
                a = (x, onp.ones(x.size) * unit) if 'hvp' in name else (x,)
                got = ctx.call(name, getattr(single, name), *a)
                msg = 'not finite: {} {}'.format(name, m1.spec.describe())
                at_point(ctx, m1, x, free, msg)
                same_snapshot(ctx, 'bystander unchanged', snapshot(m2.spec, m2.par), before, msg)
            else:
                name = names[rng.randint(len(names))]
                f1, f2 = {'fun_hessian_free1_vector2': (True, False), 'fun_hessian_vector1_free2': (False, True)}.get(
                    name, ('free' in name, 'free' in name))
                flags = name in ('fun_grad1', 'fun_grad2')
                if flags:
                    f1, f2 = bool(rng.randint(2)), bool(rng.randint(2))
                x1, x2 = m1.point(f1)[0], m2.point(f2)[0]
                got = ctx.call(name, getattr(joint, name), x1, x2, *((f1, f2) if flags else ()))
                msg = 'not finite: {} {} {} {}'.format(name, f1, f2, m1.spec.describe())
                at_point(ctx, m1, x1, f1, msg)
                at_point(ctx, m2, x2, f2, msg)
            if not onp.all(onp.isfinite(onp.asarray(got, float))):
                bad += 1
        if bad:
            ctx.feat('result is not finite')


# ---------------------------------------------------------------- C16

prop('C16', rule='pools of parameter objects (same type with default arguments, same constructor arguments, deep copies taken mid-history) under random operations; after each operation every other object is compared with its state before, and a copy is driven in parallel with its original',
     required=['other objects unchanged', 'copy equals original', 'copy behaves like original', 'returned vectors are snapshots'])


class Member(object):
    def __init__(self, label, spec, obj):
        self.label, self.spec, self.obj = label, spec, obj


def full_state(mem):
    out = snapshot(mem.spec, mem.obj)
    out.append(onp.array(mem.obj.get_free()))
    return out


def text_state(mem):
    return (str(mem.obj), [str(s) for s in onp.atleast_1d(mem.obj.names())], mem.obj.free_size(), mem.obj.vector_size(),
            getattr(mem.obj, 'name', None))


def edit_value(spec, obj, leaf, factor):
    """Change a leaf's value array where it stands."""
    v = spec.leaf_objs(obj)[leaf].get()
    if isinstance(v, onp.ndarray) and v.ndim and v.flags.writeable:
        v *= factor


def operate(ctx, mem, in_place=True):
    """One random operation; returns what it returned."""
    rng, spec, obj = ctx.rng, mem.spec, mem.obj
    if in_place and rng.rand() < 0.15:
        # Values, not legality, are at stake: one is as good as another.
        leaf, factor = rng.randint(len(spec.leaf_objs(obj))), 1. + 1e-9 * rng.randint(1, 9)
        return lambda o: edit_value(spec, o, leaf, factor), 'value edited in place'
    k = rng.randint(8)
    if k == 0:
        f = gen.rand_free(rng, spec).clip(-2, 2)
        return lambda o: o.set_free(onp.array(f)), 'set_free'
    if k == 1:
        v = spec.pack(spec.legal(rng))
        return lambda o: o.set_vector(onp.array(v)), 'set_vector'
    if k == 2:
        v = spec.legal(rng)
        return lambda o: spec.set_value(o, copy.deepcopy(v)), 'set'
    if k == 3:
        return lambda o: onp.array(o.get_free()), 'get_free'
    if k == 4:
        f = gen.rand_free(rng, spec).clip(-2, 2)
        return lambda o: dense(o.free_to_vector_jac(f)), 'jac'
    if k == 5 and spec.free_size <= 8:
        f = gen.rand_free(rng, spec).clip(-2, 2)
        return lambda o: onp.array([dense(h) for h in o.free_to_vector_hess(f)]), 'hess'
    if k == 6 and spec.composite:
        c = spec.children[rng.randint(len(spec.children))]
        if not c.composite:
            v = c.legal(rng)

            def item(o):
                o.values[c.name] = copy.deepcopy(v)
            return item, 'value view set'
    f = gen.rand_free(rng, spec).clip(-2, 2)
    return lambda o: onp.array(o.free_to_vector(f)), 'free_to_vector'


DEFAULTS = {
    'scalar': (vb.ScalarParam, lambda: gen.ScalarSpec('')),
    'vector': (vb.VectorParam, lambda: gen.VectorSpec('', 1)),
    'array': (vb.ArrayParam, lambda: gen.ArraySpec('', (1, 1))),
    'posdef': (vb.PosDefMatrixParam, lambda: gen.PosDefSpec('', 2)),
    'posdefvec': (vb.PosDefMatrixParamVector, lambda: gen.PosDefVectorSpec('', 1, 2)),
    'posdefarr': (vb.PosDefMatrixParamArray, lambda: gen.PosDefArraySpec('', (1,), 2)),
    'simplex': (vb.SimplexParam, lambda: gen.SimplexSpec('', 1, 2)),
    'subspace': (vb.SubspaceVectorParam, lambda: gen.SubspaceSpec('', 3)),
    'mvn': (vb.MVNParam, lambda: gen.mvn_spec('', 2)),
    'uvn': (vb.UVNParam, lambda: gen.uvn_spec('')),
    'uvnvec': (vb.UVNParamVector, lambda: gen.uvnvec_spec('', 2)),
    'uvnarr': (vb.UVNParamArray, lambda: gen.uvnarr_spec('', (1, 1))),
    'uvnmom': (vb.UVNMomentParamArray, lambda: gen.uvnmom_spec('', (2, 3))),
    'mvnarr': (vb.MVNArray, lambda: gen.mvnarr_spec('', (2, 2))),
    'gamma': (vb.GammaParam, lambda: gen.gamma_spec('')),
    'wishart': (vb.WishartParam, lambda: gen.wishart_spec('', 2)),
    'dirichlet': (vb.DirichletParamArray, lambda: gen.dirichlet_spec('', (1, 2))),
}


@scenario('C16', 200)
def pools(ctx):
    rng = ctx.rng
    mode = ctx.index % 3
    pool = []
    if mode == 0:
        kinds = sorted(DEFAULTS)
        kind = kinds[(ctx.index // 3) % len(kinds)]
        ctx.struct('defaults of ' + kind)
        ctx.feat('defaults:' + kind)
        cls, mk = DEFAULTS[kind]
        for i in range(3):
            pool.append(Member('default {}'.format(i), mk(), cls()))
    elif mode == 1:
        spec = gen.rand_spec(rng, ctx, index=ctx.index // 3, kinds=gen.LEAF_KINDS, big=False)
        # The same value array and constructor arguments for all.
        val = spec.legal(rng)
        for i in range(3):
            pool.append(Member('same arguments {}'.format(i), spec, spec.build(val)))
    else:
        spec = gen.rand_spec(rng, ctx, index=ctx.index // 3, kinds=gen.DIST_KINDS + ['dict'] * 6, big=False)
        for i in range(3):
            pool.append(Member('same specification {}'.format(i), spec, spec.build()))
    held = []
    twins = []
    for step in range(int(rng.randint(6, 12))):
        mem = pool[rng.randint(len(pool))]
        others = [p for p in pool if p is not mem]
        before = [full_state(p) for p in others]
        before_text = [text_state(p) for p in others]
        held_before = [h[0].copy() for h in held]
        r = rng.rand()
        if r < 0.2:
            dup = Member('copy of ' + mem.label, mem.spec, copy.deepcopy(mem.obj))
            what = 'deepcopy'
            ctx.ev('deepcopy of ' + mem.label)
            same_snapshot(ctx, 'copy equals original', full_state(dup), full_state(mem), mem.label)
            ctx.check('copy equals original', text_state(dup) == text_state(mem), mem.label)
            if len(pool) < 7:
                pool.append(dup)
        elif r < 0.4:
            # Drive a fresh copy in parallel with its original.
            dup = Member('parallel', mem.spec, copy.deepcopy(mem.obj))
            for _ in range(2):
                op, what = operate(ctx, mem, in_place=False)
                a = op(dup.obj)
                b = op(mem.obj)
                ctx.ev('parallel ' + what)
                if a is not None:
                    ctx.same('copy behaves like original', a, b, mem.label + ' ' + what)
                same_snapshot(ctx, 'copy behaves like original', full_state(dup), full_state(mem), mem.label + ' ' + what)
            # And now only the copy.
            st = full_state(mem)
            tx = text_state(mem)
            op, what = operate(ctx, dup)
            op(dup.obj)
            same_snapshot(ctx, 'other objects unchanged', full_state(mem), st, 'original after ' + what + ' on its copy')
            if mem.spec.composite:
                dup.obj.push_param(vb.VectorParam('a new member', 2))
                dup.obj.set_name('renamed')
                same_snapshot(ctx, 'other objects unchanged', full_state(mem), st, 'original after growing its copy')
                ctx.check('other objects unchanged', text_state(mem) == tx, 'original after growing its copy')
                f = gen.rand_free(rng, mem.spec).clip(-2, 2)
                dup.obj.set_free(onp.concatenate([f, [0.5, -0.5]]))
                ctx.close('copy behaves like original', onp.array(dup.obj.get_free())[:f.size], f,
                          1e-6 * (1 + onp.abs(f)), 'grown copy')
                same_snapshot(ctx, 'other objects unchanged', full_state(mem), st, 'original after setting its grown copy')
            what = 'parallel'
        else:
            op, what = operate(ctx, mem, in_place=(mode != 1))
            ctx.ev(mem.label + ' ' + what)
            op(mem.obj)
        for p, st, tx in zip(others, before, before_text):
            msg = '{} after {} on {} ({})'.format(p.label, what, mem.label, mem.spec.describe())
            same_snapshot(ctx, 'other objects unchanged', full_state(p), st, msg)
            ctx.check('other objects unchanged', text_state(p) == tx, msg)
        for (h, label), hb in zip(held, held_before):
            ctx.same('returned vectors are snapshots', h, hb, label + ' after ' + what)
        if rng.rand() < 0.5:
            held.append((mem.obj.get_vector(), 'vector of ' + mem.label))
            held.append((mem.obj.get_free(), 'free vector of ' + mem.label))
            held.append((mem.obj.free_to_vector(onp.array(mem.obj.get_free())), 'free_to_vector of ' + mem.label))


def lookalikes_of(rng):
    """Specifications of one kind and size with different constraints."""
    k = rng.randint(7)
    b = lambda: [(-gen.INF, gen.INF), (0., gen.INF), (-gen.INF, 2.), (1., 3.), (-3., -1.), (0., 1.), (-2., gen.INF), (1., gen.INF), (0.5, 1.5)][rng.randint(9)]
    lb = lambda: float(rng.choice([0., 0.5, 1., 2.]))
    n = int(rng.randint(1, 4))
    if k == 0:
        return lambda i: gen.ScalarSpec('', *b())
    if k == 1:
        return lambda i: gen.VectorSpec('', n, *b())
    if k == 2:
        return lambda i: gen.ArraySpec('', (n, 2), *b())
    if k == 3:
        return lambda i: gen.PosDefSpec('', n, lb())
    if k == 4:
        return lambda i: gen.PosDefVectorSpec('', 2, n, lb())
    if k == 5:
        return lambda i: gen.PosDefArraySpec('', (2,), n, lb())
    dim = int(rng.randint(2, 6))
    rows = int(rng.randint(1, dim))
    base = onp.linalg.qr(rng.randn(dim, dim))[0][:rows] if rng.randint(2) else onp.eye(dim)[:rows] * dim / rows

    def subspace(i):
        if i == 0 and rows == 1:
            return gen.SubspaceSpec('', dim)
        return gen.SubspaceSpec('', dim, onp.array(base[:, rng.permutation(dim)]) * rng.choice([1., -1., 1.]))
    return subspace


@scenario('C16', 100)
def lookalikes(ctx):
    """Objects of one type and size whose constraints differ: each keeps to
    its own, however they are used in turn."""
    rng = ctx.rng
    mk = lookalikes_of(rng)
    specs = [mk(i) for i in range(int(rng.randint(2, 5)))]
    ctx.struct('lookalikes {}'.format(specs[0].describe()))
    objs = [s.build() for s in specs]
    n = specs[0].free_size
    f = rng.uniform(-1.5, 1.5, size=n)
    for step in range(8):
        i = rng.randint(len(objs))
        s, o = specs[i], objs[i]
        if rng.rand() < 0.5:
            f = rng.uniform(-1.5, 1.5, size=n)
        msg = '{} of {}'.format(i, [t.describe() for t in specs])
        ctx.call('set_free', o.set_free, f.copy())
        ctx.check('own constraints', s.legal_problem(s.get_value(o)) is None, lambda: '{}: {}'.format(msg, s.legal_problem(s.get_value(o))))
        ctx.close('own constraints', onp.array(o.get_free()), f, 1e-7, msg)
        J = dense(ctx.call('jac', o.free_to_vector_jac, f.copy()))
        u = rng.randn(n)
        h = 1e-5
        d = (onp.array(o.free_to_vector(f + h * u)) - onp.array(o.free_to_vector(f - h * u))) / (2 * h)
        ctx.close('own constraints', onp.dot(J, u), d, 1e-5 * (1 + onp.max(onp.abs(J)) * onp.sum(onp.abs(u)) ** 3), msg + ' Jacobian')
        o.set_free(f.copy())
        for t, p in zip(specs, objs):
            ctx.check('own constraints', t.legal_problem(t.get_value(p)) is None, lambda: '{}: {}'.format(msg, t.legal_problem(t.get_value(p))))


@scenario('C16', 40)
def moment_sources(ctx):
    """A moment form and the objects it was set from."""
    rng = ctx.rng
    shape = gen.rand_shape(rng, max_size=8)
    ctx.struct('moment sources {}'.format(shape))
    specs = [gen.uvnarr_spec('src', shape), gen.ArraySpec('const', shape), gen.uvnmom_spec('a', shape), gen.uvnmom_spec('b', shape)]
    pool = [Member(s.name, s, s.build()) for s in specs]
    src, const, a, b = pool
    for m in pool:
        m.obj.set_free(gen.rand_free(rng, m.spec).clip(-2, 2))
    for step in range(8):
        k = rng.randint(4)
        if k == 0:
            to, what = (a, b)[rng.randint(2)], 'set_from_uvn_param_array'
            ctx.call(what, to.obj.set_from_uvn_param_array, src.obj)
        elif k == 1:
            to, what = (a, b)[rng.randint(2)], 'set_from_constant'
            ctx.call(what, to.obj.set_from_constant, const.obj)
        elif k == 2:
            to, what = b, 'set from the other moment form'
            ctx.call(what, b.obj.set_from_uvn_param_array, a.obj)
        else:
            to = pool[rng.randint(4)]
            op, what = operate(ctx, to)
            op(to.obj)
        held = [onp.array(m.obj.get_vector()) for m in pool]
        for m in pool:
            # Edit every number of one object in place.
            for x in m.spec.leaf_objs(m.obj):
                if x.get().flags.writeable:
                    x.get()[...] *= 1. + 1e-3
            for other, was in zip(pool, held):
                if other is not m:
                    ctx.same('other objects unchanged', onp.array(other.obj.get_vector()), was,
                             '{} edited in place after {} on {}'.format(m.label, what, to.label))
            held = [onp.array(q.obj.get_vector()) for q in pool]


@scenario('C16', 100)
def members_in_collections(ctx):
    """Collections of default-named parts stay independent of look-alikes."""
    rng = ctx.rng
    spec = gen.rand_dict(rng, 'd', depth=2, big=False)
    ctx.struct(spec.describe())
    a, b = spec.build(), spec.build()
    twin = copy.deepcopy(a)
    A, B, T = Member('a', spec, a), Member('b', spec, b), Member('twin', spec, twin)
    for step in range(4):
        op, what = operate(ctx, A)
        st = [full_state(B), full_state(T)]
        op(a)
        ctx.ev(what)
        same_snapshot(ctx, 'other objects unchanged', full_state(B), st[0], what)
        same_snapshot(ctx, 'other objects unchanged', full_state(T), st[1], what)
    # The value view of a copy addresses the copy.
    c = spec.children[rng.randint(len(spec.children))]
    if not c.composite:
        v = c.legal(rng)
        st = full_state(A)
        stb = full_state(T)
        dup = copy.deepcopy(a)
        dup.values[c.name] = v
        same_snapshot(ctx, 'other objects unchanged', full_state(A), st, 'value view of a copy')
        c.close(ctx, 'copy behaves like original', c.get_value(dup[c.name]), v, c.value_tol(v))
        dup.get()[c.name] = c.legal(rng)
        same_snapshot(ctx, 'other objects unchanged', full_state(A), st, 'value view of a copy')
    # Growing one collection does not grow another.
    st, tx = full_state(B), text_state(B)
    a.push_param(vb.ScalarParam('another', val=1.5))
    same_snapshot(ctx, 'other objects unchanged', full_state(B), st, 'after push_param')
    ctx.check('other objects unchanged', text_state(B) == tx, 'after push_param')
    e1, e2 = vb.ModelParamsDict(), vb.ModelParamsDict()
    e1.push_param(vb.VectorParam('x', 2))
    ctx.check('other objects unchanged', e2.free_size() == 0 and e2.vector_size() == 0 and
              len(e2.param_dict) == 0 and len(e2.free_indices_dict) == 0 and len(e2.vector_indices_dict) == 0,
              'an empty collection changed')


# ---------------------------------------------------------------- C33

prop('C33', rule='calls to every public entry point that takes arrays, successful and refused, with writable and read-only arguments whose bytes are compared before and after; results returned earlier are overwritten with noise and the state and later results compared',
     required=['argument unchanged', 'argument unchanged when refused', 'state unaffected by writing to a result',
               'later result unaffected', 'own copy of base values', 'state unaffected by reusing a free vector'],
     assumptions=['the array returned by get() (the value itself) and by get_dinput_dhyper is not claimed to be a copy'])


class Watch(object):
    """Remembers the bytes of everything reachable from the arguments."""

    def __init__(self, *args):
        self.items = []
        for i, a in enumerate(args):
            self.add(a, 'argument {}'.format(i))

    def add(self, a, label):
        if isinstance(a, onp.ndarray):
            self.items.append((label, a, a.copy(), a.shape, a.dtype))
        elif scipy.sparse.issparse(a):
            self.add_sparse(a, label)
        elif isinstance(a, (list, tuple)):
            self.items.append((label, a, list(a), None, None))
            for i, x in enumerate(a):
                self.add(x, '{}[{}]'.format(label, i))
        elif isinstance(a, dict):
            self.items.append((label, a, dict(a), None, None))
            for k, x in a.items():
                self.add(x, '{}[{!r}]'.format(label, k))

    def add_sparse(self, a, label):
        self.items.append((label + ' (sparse)', a, onp.asarray(a.todense()), a.shape, a.dtype))

    def verify(self, ctx, monitor, msg):
        for label, a, was, shape, dtype in self.items:
            m = '{}: {}'.format(msg, label)
            if isinstance(a, (list, tuple)):
                ctx.check(monitor, len(a) == len(was) and all(x is y for x, y in zip(a, was)), m)
            elif isinstance(a, dict):
                ctx.check(monitor, set(a) == set(was) and all(a[k] is was[k] for k in was), m)
            elif scipy.sparse.issparse(a):
                ctx.check(monitor, a.shape == shape and a.dtype == dtype, m)
                ctx.same(monitor, onp.asarray(a.todense()), was, m)
            else:
                ctx.check(monitor, a.shape == shape and a.dtype == dtype, m)
                ctx.same(monitor, a, was, m)


def guarded(ctx, label, fn, *args, **kw):
    """Call with the arguments watched; read-only a third of the time."""
    watch = Watch(*(list(args) + [kw]))
    frozen = []
    if ctx.rng.rand() < 0.35:
        for _, a, _, _, _ in watch.items:
            if isinstance(a, onp.ndarray) and a.flags.writeable:
                a.setflags(write=False)
                frozen.append(a)
        ctx.feat('read-only arguments')
    try:
        out = ctx.call(label, fn, *args, **kw)
    finally:
        for a in frozen:
            try:
                a.setflags(write=True)
            except ValueError:
                pass
    watch.verify(ctx, 'argument unchanged', label)
    ctx.feat('entry point ' + label.split(' ')[0])
    return out


def guarded_refusal(ctx, label, fn, *args, **kw):
    watch = Watch(*(list(args) + [kw]))
    try:
        ctx.ev('call ' + label)
        fn(*args, **kw)
        ctx.ev('returned')
    except Exception as e:
        ctx.ev('raised ' + type(e).__name__)
    watch.verify(ctx, 'argument unchanged when refused', label)


def scribble(rng, x):
    """Overwrite a result in place, as far as it is writable."""
    if isinstance(x, (list, tuple)):
        for y in x:
            scribble(rng, y)
    elif scipy.sparse.issparse(x):
        if hasattr(x, 'data') and isinstance(x.data, onp.ndarray) and x.data.size:
            x.data[...] = 1e3 * rng.randn(*x.data.shape)
    elif isinstance(x, onp.ndarray) and x.flags.writeable and x.dtype != object:
        x[...] = 1e3 * rng.randn(*x.shape)


@scenario('C33', 200)
def parameters(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index, max_free=14)
    val = spec.legal(rng)
    if not spec.composite:
        obj = guarded(ctx, 'constructor', spec.build, val)
    else:
        obj = spec.build()
    pollute(ctx, spec, obj)
    leaves = list(zip([l for _, l in spec.leaves()], spec.leaf_objs(obj)))
    for step in range(8):
        k = (ctx.index + step) % 8
        f = gen.rand_free(rng, spec).clip(-2, 2)
        v = spec.pack(spec.legal(rng))
        if k == 0:
            guarded(ctx, 'set_free', obj.set_free, gen.layout(rng, f))
        elif k == 1:
            guarded(ctx, 'set_vector', obj.set_vector, gen.layout(rng, v))
        elif k == 2:
            l, o = leaves[rng.randint(len(leaves))]
            x = l.legal(rng)
            guarded(ctx, 'set', o.set, gen.layout(rng, x) if isinstance(x, onp.ndarray) else x)
        elif k == 3:
            guarded(ctx, 'free_to_vector', obj.free_to_vector, f)
        elif k == 4:
            guarded(ctx, 'free_to_vector_jac', obj.free_to_vector_jac, f)
        elif k == 5:
            if spec.free_size <= 10:
                guarded(ctx, 'free_to_vector_hess', obj.free_to_vector_hess, f)
        elif k == 6:
            n = spec.vector_size
            h = rng.randn(n, n)
            h = h + h.T
            g = rng.randn(n)
            H = [h, scipy.sparse.csr_matrix(h), scipy.sparse.coo_matrix(h)][rng.randint(3)]
            if spec.free_size <= 10:
                guarded(ctx, 'convert', par_lib.convert_vector_to_free_hessian, obj, f, g, H)
        else:
            guarded_refusal(ctx, 'set_free wrong size', obj.set_free, onp.concatenate([f, [1.]]))
            guarded_refusal(ctx, 'set_vector wrong size', obj.set_vector, onp.concatenate([v, [1.]]))
            l, o = leaves[rng.randint(len(leaves))]
            guarded_refusal(ctx, 'set wrong shape', o.set, rng.randn(*(tuple(getattr(l, 'shape', ())) + (2,))))
            if l.kind == 'posdef' and l.k > 1:
                guarded_refusal(ctx, 'set non-symmetric', o.set, rng.randn(l.k, l.k))


@scenario('C33', 150)
def results_do_not_alias(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index, max_free=10)
    obj = spec.build()
    pollute(ctx, spec, obj)
    twin = copy.deepcopy(obj)
    f = gen.rand_free(rng, spec).clip(-2, 2)
    for step in range(6):
        k = (step + ctx.index) % 6
        if k == 0:
            fn = lambda o: o.get_free()
        elif k == 1:
            fn = lambda o: o.get_vector()
        elif k == 2:
            fn = lambda o: o.free_to_vector(onp.array(f))
        elif k == 3:
            fn = lambda o: o.free_to_vector_jac(onp.array(f))
        elif k == 4:
            fn = lambda o: o.free_to_vector_hess(onp.array(f))
        else:
            leafs = spec.leaf_objs(obj)
            i = rng.randint(len(leafs))
            j = rng.randint(2)
            fn = lambda o: (spec.leaf_objs(o)[i].get_free() if j else spec.leaf_objs(o)[i].get_vector())
        r1 = fn(obj)
        r2 = fn(twin)
        st = snapshot(spec, obj)
        twice = fn(obj) if rng.randint(2) else None
        scribble(rng, r1)
        if twice is not None:
            flat = lambda r: [dense(x) for x in r] if isinstance(r, (list, tuple)) else [dense(r)]
            for a, b in zip(flat(twice), flat(r2)):
                ctx.same('later result unaffected', a, b, '{} asked for twice {}'.format(k, spec.describe()))
        ctx.ev('scribbled on result {}'.format(k))
        same_snapshot(ctx, 'state unaffected by writing to a result', snapshot(spec, obj), st, '{} {}'.format(k, spec.describe()))
        again = fn(obj)
        flat = lambda r: [dense(x) for x in r] if isinstance(r, (list, tuple)) else [dense(r)]
        for a, b in zip(flat(again), flat(r2)):
            ctx.same('later result unaffected', a, b, '{} {}'.format(k, spec.describe()))
        # The same buffer reused for another call.
        other = spec.build()
        st2 = snapshot(spec, other)
        scribble(rng, fn(obj))
        same_snapshot(ctx, 'state unaffected by writing to a result', snapshot(spec, other), st2, 'another object')


@scenario('C33', 120)
def free_vectors_are_not_kept(ctx):
    """The caller reuses the free vector a parameter was set from."""
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index, max_free=20)
    obj = spec.build()
    pollute(ctx, spec, obj)
    f = gen.rand_free(rng, spec).clip(-2, 2)
    fun = obj_lib.Objective(obj, lambda: np.sum(obj.get_vector() ** 2))
    fun.logger.callback = lambda l: None
    fun.preconditioner = onp.eye(f.size)
    for how in ('set_free', 'fun_free', 'fun_free_grad', 'fun_free_cond', 'member'):
        x = onp.array(f)
        if how == 'set_free':
            obj.set_free(x)
        elif how == 'member':
            leafs = spec.leaf_objs(obj)
            i = rng.randint(len(leafs))
            x = onp.array(leafs[i].get_free())
            leafs[i].set_free(x)
        else:
            getattr(fun, how)(x)
        st = snapshot(spec, obj)
        g = onp.array(obj.get_free())
        scribble(rng, x)
        ctx.ev('caller reused the free vector given to ' + how)
        msg = '{} after the caller reused the array given to {}'.format(spec.describe(), how)
        same_snapshot(ctx, 'state unaffected by reusing a free vector', snapshot(spec, obj), st, msg)
        ctx.same('state unaffected by reusing a free vector', obj.get_free(), g, msg)


@scenario('C33', 100)
def objectives(ctx):
    rng = ctx.rng
    P = Pair(ctx, 5)
    m = P.m1
    single = obj_lib.Objective(m.par, m.user_fun())
    single.logger.callback = lambda l: None
    joint = obj_lib.TwoParameterObjective(P.m1.par, P.m2.par, P.fun())
    C = lambda: P.m2.par.set_free(P.m2.f0 + 0.1 * np.sin(m.fns[0](m.par)) * onp.ones(P.m2.f0.size))
    conv = obj_lib.ParameterConverter(m.par, P.m2.par, C)
    A, arg, form = rand_precond(rng, m.spec.free_size)
    single.preconditioner = arg
    watch_a = Watch(arg)
    for step in range(6):
        k = rng.randint(5) if step else ctx.index % 5
        if k == 0:
            is_free = bool(rng.randint(2))
            x, unit, _ = m.point(is_free)
            name = 'free' if is_free else 'vector'
            op = ['', '_grad', '_hessian', '_jacobian', '_hvp'][rng.randint(5)]
            a = (x, unit.copy()) if op == '_hvp' else (x,)
            kw = {'verbose': True} if (op == '' and is_free) else {}
            fn = getattr(single, 'fun_' + name + op)
            label = 'fun_' + name + op
        elif k == 1:
            y = onp.linalg.solve(A, m.point(True)[0])
            op = ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond', 'fun_free_hvp_cond', 'uncondition_x'][rng.randint(5)]
            a = (y, onp.ones(y.size)) if 'hvp' in op else (y,)
            kw = {}
            fn, label = getattr(single, op), op
        elif k in (2, 3):
            names = ['fun_free', 'fun_vector', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_vector_hessian12',
                     'fun_vector_hessian21', 'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2', 'fun_grad1', 'fun_grad2']
            label = names[rng.randint(len(names))]
            f1, f2 = {'fun_hessian_free1_vector2': (True, False), 'fun_hessian_vector1_free2': (False, True)}.get(
                label, ('free' in label, 'free' in label))
            a = (P.m1.point(f1)[0], P.m2.point(f2)[0])
            if 'grad' in label:
                a = a + (f1, f2)
            kw = {}
            fn = getattr(joint, label)
        else:
            fin, fout = rng.randint(2), rng.randint(2)
            label = '{}_to_{}'.format(['vec', 'free'][fin], ['vec', 'free'][fout])
            a = (m.point(bool(fin))[0],)
            kw = {}
            if rng.rand() < 0.5:
                fn, label = getattr(conv, label + '_jacobian'), label + '_jacobian'
            else:
                fn, label = getattr(conv, 'converter_' + label), 'converter_' + label
        r = guarded(ctx, label, fn, *a, **kw)
        r1 = copy.deepcopy(r)
        st = snapshot(m.spec, m.par), snapshot(P.m2.spec, P.m2.par)
        if isinstance(r, onp.ndarray) and r.ndim:
            twice = fn(*a, **kw) if rng.randint(2) else None
            scribble(rng, r)
            if twice is not None:
                ctx.same('later result unaffected', twice, r1, label + ' asked for twice')
            same_snapshot(ctx, 'state unaffected by writing to a result', snapshot(m.spec, m.par), st[0], label)
            same_snapshot(ctx, 'state unaffected by writing to a result', snapshot(P.m2.spec, P.m2.par), st[1], label)
            watch_a.verify(ctx, 'argument unchanged', label + ' preconditioner')
            again = fn(*a, **kw)
            ctx.same('later result unaffected', again, r1, label)
    watch_a.verify(ctx, 'argument unchanged', 'preconditioner')


@scenario('C33', 60)
def sensitivity_objects(ctx):
    rng = ctx.rng
    n, p = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    x = vb.VectorParam('x', n, lb=-50.)
    h = vb.VectorParam('h', p, lb=-50.)
    out = vb.VectorParam('out', n)
    Q = gen.rand_posdef(rng, n)
    B = rng.randn(n, p)

    def fun():
        return 0.5 * np.dot(x.get(), np.dot(Q, x.get())) - np.dot(x.get(), np.dot(B, h.get() + 0.1 * h.get() ** 2)) \
            + 0.1 * np.sum(np.cos(x.get()))

    def convert():
        out.set(x.get() ** 2)

    cls = ctx.index % 3
    hyper0 = rng.randn(p) * 0.3
    h.set(hyper0)
    # The optimum by Newton's method, in plain numbers.
    z = onp.zeros(n)
    rhs = onp.dot(B, hyper0 + 0.1 * hyper0 ** 2)
    for _ in range(50):
        g = onp.dot(Q, z) - rhs - 0.1 * onp.sin(z)
        z = z - onp.linalg.solve(Q - 0.1 * onp.diag(onp.cos(z)), g)
    x.set(z)
    is_free = bool(rng.randint(2)) or cls == 2
    hy_free = cls != 2 and rng.randint(3) == 0
    in0 = onp.array(x.get_free() if is_free else x.get_vector())
    hy0 = onp.array(h.get_free() if hy_free else h.get_vector())
    hess = None
    if rng.rand() < 0.5:
        o = obj_lib.Objective(x, fun)
        hess = onp.array(o.fun_free_hessian(in0) if is_free else o.fun_vector_hessian(in0))
    names = ['linear', 'taylor', 'legacy']
    ctx.struct('{} {} {}'.format(names[cls], n, p))
    (h.set_free if hy_free else h.set_vector)(hy0)
    if cls == 0:
        s = guarded(ctx, 'ParametricSensitivityLinearApproximation', sens_lib.ParametricSensitivityLinearApproximation,
                    fun, x, h, in0, hy0, input_is_free=is_free, hyper_is_free=hy_free, hess0=hess)
        predict = lambda d: s.predict_input_par_from_hyperparameters(d)
    elif cls == 1:
        s = guarded(ctx, 'ParametricSensitivityTaylorExpansion', sens_lib.ParametricSensitivityTaylorExpansion,
                    fun, x, h, in0, hy0, 2, input_is_free=is_free, hyper_is_free=hy_free, hess0=hess)
        predict = lambda d: s.evaluate_taylor_series(d - hy_was)
    else:
        s = guarded(ctx, 'ParametricSensitivity', obj_lib.ParametricSensitivity,
                    fun, x, out, h, convert, optimal_input_par=in0, objective_hessian=hess)
        predict = lambda d: s.predict_input_par_from_hyperparameters(d)
    hy_was = hy0.copy()
    d = hy0 + 0.1
    first = onp.array(guarded(ctx, 'predict ' + names[cls], predict, d))
    # Overwrite the base values the caller passed in.
    in0[...] = 77.
    hy0[...] = -3.
    ctx.same('own copy of base values', predict(d), first, names[cls] + ' after the caller reused its base values')
    # Overwrite a prediction.
    r = predict(d)
    scribble(rng, r)
    ctx.same('later result unaffected', predict(d), first, names[cls])
    r = predict(hy_was)
    scribble(rng, r)
    ctx.same('later result unaffected', predict(d), first, names[cls])
    # The parameters' values are edited where they stand.
    for par in (x, h):
        v = par.get()
        if v.flags.writeable:
            v += 0.25
            ctx.same('own copy of base values', predict(d), first, names[cls] + ' after a value was edited in place')
    # Other users of the parameters.
    x.set(onp.full(n, 3.))
    h.set(onp.full(p, 2.))
    ctx.same('own copy of base values', predict(d), first, names[cls] + ' after the parameters were set elsewhere')
    if cls == 2:
        r = guarded(ctx, 'predict_output', s.predict_output_par_from_hyperparameters, d, True)
        scribble(rng, r)
        r2 = s.predict_output_par_from_hyperparameters(hy_was, True)
        r2c = onp.array(r2)
        scribble(rng, r2)
        ctx.same('later result unaffected', s.predict_output_par_from_hyperparameters(hy_was, True), r2c, 'output')
    if cls == 1:
        guarded(ctx, 'evaluate_dkinput_dhyperk', s.evaluate_dkinput_dhyperk, d - hy_was, 1)
        r = s.evaluate_taylor_series(d - hy_was, add_offset=False)
        scribble(rng, r)
        ctx.same('later result unaffected', predict(d), first, names[cls])


@scenario('C33', 120)
def functions(ctx):
    """Stand-alone functions."""
    rng = ctx.rng
    n = int(rng.randint(1, 5))
    S = gen.rand_posdef(rng, n)
    pos = lambda *s: onp.exp(rng.randn(*s) * 0.5)
    gx, gw = onp.polynomial.hermite.hermgauss(4)
    x = onp.array(gx)
    w = onp.array(gw)
    k = ctx.index % 6
    if k == 0:
        guarded(ctx, 'get_sym_matrix_inv_sqrt', opt_lib.get_sym_matrix_inv_sqrt, S, ev_min=0.5, ev_max=1.2)
        guarded(ctx, 'get_sym_matrix_inv_sqrt', opt_lib.get_sym_matrix_inv_sqrt, rng.randn(n, n) + 5 * onp.eye(n))
        par = vb.VectorParam('x', n)
        o = obj_lib.Objective(par, lambda: np.sum(np.cosh(par.get())) + 0.5 * np.dot(par.get(), np.dot(S, par.get())))
        o.logger.callback = lambda l: None
        hess = guarded(ctx, 'set_objective_preconditioner', opt_lib.set_objective_preconditioner, o, hessian=S.copy(), ev_min=0.1)[0]
        x0 = rng.randn(n)
        guarded(ctx, 'set_objective_preconditioner', opt_lib.set_objective_preconditioner, o, free_par=x0)
        for pre in (False, True):
            guarded(ctx, 'minimize_objective_trust_ncg', opt_lib.minimize_objective_trust_ncg, o, x0, pre, disp=False, maxiter=3)
            guarded(ctx, 'minimize_objective_bfgs', opt_lib.minimize_objective_bfgs, o, x0, pre, disp=False, maxiter=3)
        guarded(ctx, 'repeatedly_optimize', opt_lib.repeatedly_optimize, o,
                lambda z: opt_lib.minimize_objective_bfgs(o, z, False, disp=False, maxiter=2), x0, max_iter=3)
        lg = obj_lib.Logger()
        lg.callback = lambda l: None
        guarded(ctx, 'log', lg.log, 1., x0)
    elif k == 1:
        mu, info = rng.randn(n, 2), pos(n, 2)
        guarded(ctx, 'get_e_fun_normal', ef.get_e_fun_normal, mu, info, x, w, lambda z: z ** 2)
        guarded(ctx, 'get_e_logitnormal', ef.get_e_logitnormal, mu, info, x, w)
        guarded(ctx, 'get_e_log_logitnormal', ef.get_e_log_logitnormal, mu, info, x, w)
        guarded(ctx, 'get_e_dp_prior_logitnorm_approx', ef.get_e_dp_prior_logitnorm_approx, 2.5, mu, info, x, w)
        guarded(ctx, 'get_e_logistic_term', modeling.get_e_logistic_term, (rng.rand(n) < 0.5).astype(float), rng.randn(n), pos(n), rng.randn(5))
        for agg in (True, False):
            guarded(ctx, 'get_e_logistic_term_guass_hermite', modeling.get_e_logistic_term_guass_hermite, mu, pos(n, 2), x, w, aggregate_all=agg)
        guarded(ctx, 'univariate_normal_log_prob', modeling.univariate_normal_log_prob, rng.randn(n), rng.randn(n), pos(n))
    elif k == 2:
        a = pos(n + 1, 2)
        for name in ('dirichlet_entropy', 'get_e_dirichlet', 'get_e_log_dirichlet', 'univariate_normal_entropy'):
            guarded(ctx, name, getattr(ef, name), a)
        guarded(ctx, 'multinoulli_entropy', ef.multinoulli_entropy, a / onp.sum(a, axis=1, keepdims=True))
        guarded(ctx, 'beta_entropy', ef.beta_entropy, a)
        guarded(ctx, 'gamma_entropy', ef.gamma_entropy, pos(n), pos(n))
        guarded(ctx, 'get_e_log_gamma', ef.get_e_log_gamma, pos(n), pos(n))
        for name in ('get_e_lognormal', 'get_var_lognormal'):
            guarded(ctx, name, getattr(ef, name), rng.randn(n), pos(n))
        guarded(ctx, 'get_uvn_from_natural_parameters', ef.get_uvn_from_natural_parameters, rng.randn(n), -pos(n))
    elif k == 3:
        guarded(ctx, 'multivariate_normal_entropy', ef.multivariate_normal_entropy, S)
        for name in ('wishart_entropy', 'e_log_det_wishart', 'e_log_inv_wishart_diag'):
            guarded(ctx, name, getattr(ef, name), n + 1.5, S)
        guarded(ctx, 'expected_ljk_prior', ef.expected_ljk_prior, 2., n + 1.5, S)
        guarded(ctx, 'mvn_prior', ef.mvn_prior, rng.randn(n), S.copy(), rng.randn(n), gen.rand_posdef(rng, n))
        guarded(ctx, 'uvn_prior', ef.uvn_prior, rng.randn(n), pos(n), rng.randn(n), pos(n))
        guarded(ctx, 'gamma_prior', ef.gamma_prior, pos(n), pos(n), pos(n), rng.randn(n))
        guarded(ctx, 'dirichlet_prior', ef.dirichlet_prior, pos(n), rng.randn(n))
        guarded(ctx, 'exponential_prior', ef.exponential_prior, pos(n), pos(n))
    elif k == 4:
        b, s, r = int(rng.randint(1, 3)), n + 2, n
        X, y = rng.randn(b, s, r), rng.randn(b, 3, s)
        info = onp.array([gen.rand_posdef(rng, s) for _ in range(b)])
        pm, pi = rng.randn(b, r), onp.array([gen.rand_posdef(rng, r) for _ in range(b)])
        guarded(ctx, 'mat_mul_last2dims', reg.mat_mul_last2dims, X, rng.randn(b, s, 2))
        guarded(ctx, 'matvec_mul_last2dims', reg.matvec_mul_last2dims, X, y)
        guarded(ctx, 'get_nat_params_from_likelihood', reg.get_nat_params_from_likelihood, y, X, info)
        guarded(ctx, 'get_nat_params_from_likelihood', reg.get_nat_params_from_likelihood, y, X, 2.)
        n1, n2 = guarded(ctx, 'get_nat_params_from_prior', reg.get_nat_params_from_prior, pm, pi)
        guarded(ctx, 'get_mvn_from_nat_params', reg.get_mvn_from_nat_params, n1, n2)
        guarded(ctx, 'get_regression_coefficients', reg.get_regression_coefficients, y, X, info)
        guarded(ctx, 'get_posterior_regression_coefficients', reg.get_posterior_regression_coefficients, y, X, info, pm, pi)
        guarded_refusal(ctx, 'mat_mul_last2dims', reg.mat_mul_last2dims, X, rng.randn(b, s + 1, 2))
    else:
        ind = rng.permutation(n + 3)[:n]
        D = rng.randn(n, n)
        guarded(ctx, 'get_sparse_sub_hessian', obj_lib.get_sparse_sub_hessian, D, ind, n + 3)
        guarded(ctx, 'get_sparse_sub_matrix', obj_lib.get_sparse_sub_matrix, D, ind, list(ind), n + 3, n + 4)
        sp = scipy.sparse.csr_matrix(D * (rng.rand(n, n) < 0.5))
        packed = guarded(ctx, 'pack_csr_matrix', obj_lib.pack_csr_matrix, sp)
        guarded(ctx, 'unpack_csr_matrix', obj_lib.unpack_csr_matrix, packed)
        js = guarded(ctx, 'json_pack_csr_matrix', obj_lib.json_pack_csr_matrix, sp)
        guarded(ctx, 'json_unpack_csr_matrix', obj_lib.json_unpack_csr_matrix, js)
        guarded(ctx, 'safe_matmul', obj_lib.safe_matmul, sp, D)
        guarded(ctx, 'safe_matmul', obj_lib.safe_matmul, D, sp)
        guarded(ctx, 'compress', obj_lib.compress, sp)
        guarded(ctx, 'compress', obj_lib.compress, D[None])
        solver = cg_lib.ConjugateGradientSolver(lambda z, v: onp.dot(S, v), x0=onp.ones(n))
        guarded(ctx, 'get_hinv_vec', solver.get_hinv_vec, rng.randn(n), x0=rng.randn(n))
        mask = rng.rand(12) < 0.7
        guarded(ctx, 'split_vector', cg_lib.split_vector, mask)
        res = []
        watch = Watch(mask)
        cg_lib.recursive_split(mask, results=res, terminate_len=3)
        watch.verify(ctx, 'argument unchanged', 'recursive_split')
        if n > 1:
            masks = cg_lib.get_masks(n, 1)
            guarded(ctx, 'get_hinv_vec_subsets', solver.get_hinv_vec_subsets, rng.randn(n), masks)
        guarded(ctx, 'make_index_param', lambda p: obj_lib.make_index_param(p), vb.VectorParam('x', n))
