"""C30: distribution parameter objects."""
import numpy as np
import LinearResponseVariationalBayes as vb

from core import scenario, prop, is_plain
import gen
import quad

prop('C30', rule='the nine distribution objects in rotation with random and default constructor arguments, set through every interface in random histories; every reported moment is compared with the integral or elementary formula for the distribution whose parameters the members currently hold',
     required=['members', 'sizes', 'lower bounds', 'mean', 'second moment', 'variance', 'covariance', 'lognormal mean', 'lognormal variance',
               'lognormal second moment', 'mean log', 'mean log determinant', 'mean inverse', 'lkj', 'entropy', 'set from object', 'set from constant', 'refused'],
     assumptions=['reference integrals as in C26 and C27'])

H1 = 0.5 * np.log(2 * np.pi * np.e)


def val(x):
    return np.array(x, float)


def close(ctx, monitor, got, want, tol, msg):
    """Like ctx.close, but a scalar may come back as a one-element array."""
    want = np.asarray(want, float)
    if np.size(got) == 1 and want.size == 1 and is_plain(got) and np.shape(got) in ((), (1,)) and want.shape in ((), (1,)):
        got = np.reshape(np.asarray(got), want.shape)
    ctx.close(monitor, got, want, tol, msg)


def lognormal(ctx, obj, mean, var, msg, slack=None):
    """slack: how uncertain the variance itself is."""
    z, w = quad.normal_grid()
    sd = np.expand_dims(np.sqrt(var), -1)
    top = np.max(var) if np.size(var) else 0.
    if top > 30 or np.max(np.abs(mean)) > 100:
        ctx.abandon('lognormal moments too large to integrate')
        return
    x = np.exp(sd * z)
    e = np.sum(w * x, axis=-1)
    v = np.sum(w * (x - np.expand_dims(e, -1)) ** 2, axis=-1)
    e2 = np.sum(w * x ** 2, axis=-1)
    s = np.exp(mean)
    r = 1e-10 if slack is None else 1e-10 + 4 * slack
    calls = [('lognormal mean', 'e_exp', e * s, r * e * s),
             ('lognormal variance', 'var_exp', v * s ** 2, r * v * s ** 2 + (1e-14 if slack is None else 1e-14 + 4 * slack) * e2 * s ** 2),
             ('lognormal second moment', 'e2_exp', e2 * s ** 2, 2 * r * e2 * s ** 2)]
    for i in ctx.rng.permutation(3):
        mon, name, want, tol = calls[i]
        close(ctx, mon, ctx.call(name, getattr(obj, name)), want, tol, msg)


def check_uvn(ctx, obj, msg):
    mean, info = val(obj['mean'].get()), val(obj['info'].get())
    m2 = mean ** 2 + 1 / info
    close(ctx, 'mean', ctx.call('e', obj.e), mean, 0., msg)
    close(ctx, 'second moment', ctx.call('e_outer', obj.e_outer), m2, 1e-13 * m2, msg)
    close(ctx, 'variance', ctx.call('var', obj.var), 1 / info, 1e-13 / info, msg)
    close(ctx, 'entropy', ctx.call('entropy', obj.entropy), np.sum(H1 - 0.5 * np.log(info)),
          1e-12 * np.sum(1 + np.abs(np.log(info))), msg)
    lognormal(ctx, obj, mean, 1 / info, msg)


def check_mom(ctx, obj, msg):
    e, e2 = val(obj['e'].get()), val(obj['e2'].get())
    close(ctx, 'mean', ctx.call('e', obj.e), e, 0., msg)
    close(ctx, 'second moment', ctx.call('e_outer', obj.e_outer), e2, 0., msg)
    var = e2 - e ** 2
    close(ctx, 'variance', ctx.call('var', obj.var), var, 4e-16 * (np.abs(e2) + e ** 2), msg)
    if np.all(var > 1e-6 * np.abs(e2)):
        slack = 4e-16 * (np.abs(e2) + e ** 2) / var
        close(ctx, 'entropy', ctx.call('entropy', obj.entropy), np.sum(H1 + 0.5 * np.log(var)),
              np.sum(1e-12 * (1 + np.abs(np.log(var))) + slack), msg)
        lognormal(ctx, obj, e, var, msg, slack * (1 + var))
    else:
        ctx.feat('moments of no distribution')


def check_mvn(ctx, obj, msg):
    mean, info = val(obj['mean'].get()), val(obj['info'].get())
    lam, q = np.linalg.eigh(info)
    cov = np.dot(q / lam, q.T)
    ctol = 1e-13 * len(lam) / lam[0] * lam[-1] / lam[0]
    close(ctx, 'mean', ctx.call('e', obj.e), mean, 0., msg)
    close(ctx, 'covariance', ctx.call('cov', obj.cov), cov, ctol, msg)
    close(ctx, 'second moment', ctx.call('e_outer', obj.e_outer), np.outer(mean, mean) + cov,
          ctol + 1e-13 * np.max(np.abs(mean)) ** 2, msg)
    out = obj.e_outer()
    ctx.check('second moment', np.array_equal(out, out.T), msg + ' not symmetric')
    close(ctx, 'entropy', ctx.call('entropy', obj.entropy), np.sum(H1 - 0.5 * np.log(lam)),
          1e-11 * np.sum(1 + np.abs(np.log(lam))) + 1e-14 * len(lam) ** 2 * lam[-1] / lam[0], msg)


def check_mvnarr(ctx, obj, msg):
    mean, info = val(obj['mean'].get()), val(obj['info'].get())
    close(ctx, 'mean', ctx.call('e', obj.e), mean, 0., msg)
    want = np.array([[m ** 2 + 1. / i for m in row] for row, i in zip(mean, info)])
    close(ctx, 'second moment', ctx.call('e2', obj.e2), want, 1e-13 * want, msg)


def check_gamma(ctx, obj, msg):
    a, b = float(val(obj['shape'].get()).reshape(-1)[0]), float(val(obj['rate'].get()).reshape(-1)[0])
    if not (1e-3 < a < 1e4 and 1e-12 < b < 1e12):
        ctx.abandon('extreme gamma')
        return
    f = quad.gamma(a, b)
    close(ctx, 'mean', ctx.call('e', obj.e), f['e'], 1e-10 * f['e'], msg)
    close(ctx, 'mean log', ctx.call('e_log', obj.e_log), f['e_log'], 1e-10 * (1 + abs(f['e_log'])), msg)
    close(ctx, 'entropy', ctx.call('entropy', obj.entropy), f['entropy'], 1e-10 * f['size'], msg)


def check_wishart(ctx, obj, msg):
    df, v = float(val(obj['df'].get()).reshape(-1)[0]), val(obj['v'].get())
    k = v.shape[0]
    if not k - 1 + 1e-3 < df < 1e4:
        ctx.abandon('extreme degrees of freedom')
        return
    lam, q = np.linalg.eigh(v)
    cond = lam[-1] / lam[0]
    f = quad.wishart(df, lam)
    close(ctx, 'mean', ctx.call('e', obj.e), df * v, 1e-13 * df * lam[-1], msg)
    close(ctx, 'mean log determinant', ctx.call('e_log_det', obj.e_log_det), f['e_log_det'], 1e-10 * f['size'] + 1e-14 * k ** 2 * cond, msg)
    close(ctx, 'entropy', ctx.call('entropy', obj.entropy), f['entropy'], 1e-10 * f['size'] + 1e-14 * k ** 3 * cond, msg)
    if df > k + 1 + 0.05:
        # The inverse of a chi squared with df - k + 1 degrees: a ratio of
        # normalizers.
        a = 0.5 * (df - k + 1)
        r = np.exp(quad.gamma(a - 1., 0.5)['logz'] - quad.gamma(a, 0.5)['logz'])
        want = np.dot(q / lam, q.T) * r
        close(ctx, 'mean inverse', ctx.call('e_inv', obj.e_inv), want,
              (1e-13 * k * cond + 1e-9 + 1e-15 * df / (df - k - 1)) / lam[0] * r, msg)
    eta = float(10. ** ctx.rng.uniform(-1, 1))
    got = ctx.call('e_log_lkj_inv_prior', obj.e_log_lkj_inv_prior, eta)
    base = obj.e_log_lkj_inv_prior(1.)
    e = -f['e_log_det'] - np.sum(np.log(np.sum(q ** 2 / lam, axis=1)) + f['minus_e_log_chi2'])
    # The prior is a multiple of the expected log correlation determinant.
    close(ctx, 'lkj', np.asarray(got) - np.asarray(base), (eta - 1) * e, 1e-9 * f['size'] * (1 + eta) + 1e-13 * k ** 2 * cond * (1 + eta), msg)


def check_dirichlet(ctx, obj, msg):
    alpha = val(obj['alpha'].get())
    if not (np.min(alpha) > 1e-3 and np.max(alpha) < 1e4):
        ctx.abandon('extreme dirichlet')
        return
    rest = alpha.shape[1:]
    e, el, h, s = np.zeros(alpha.shape), np.zeros(alpha.shape), np.zeros(rest), np.zeros(rest)
    for ind in np.ndindex(*rest):
        f = quad.dirichlet(alpha[(slice(None),) + ind])
        e[(slice(None),) + ind], el[(slice(None),) + ind] = f['e'], f['e_log']
        h[ind], s[ind] = f['entropy'], f['size']
    close(ctx, 'mean', ctx.call('e', obj.e), e, 1e-10, msg)
    close(ctx, 'mean log', ctx.call('e_log', obj.e_log), el, 1e-10 * (1 + np.abs(el)), msg)
    if alpha.shape[0] > 1:
        close(ctx, 'entropy', ctx.call('entropy', obj.entropy), h, 1e-10 * s, msg)


CHECKS = {'uvn': check_uvn, 'uvnvec': check_uvn, 'uvnarr': check_uvn, 'uvnmom': check_mom, 'mvn': check_mvn,
          'mvnarr': check_mvnarr, 'gamma': check_gamma, 'wishart': check_wishart, 'dirichlet': check_dirichlet}

DEFAULTS = {
    'uvn': (vb.UVNParam, lambda: gen.uvn_spec('')),
    'uvnvec': (vb.UVNParamVector, lambda: gen.uvnvec_spec('', 2)),
    'uvnarr': (vb.UVNParamArray, lambda: gen.uvnarr_spec('', (1, 1))),
    'uvnmom': (vb.UVNMomentParamArray, lambda: gen.uvnmom_spec('', (2, 3))),
    'mvn': (vb.MVNParam, lambda: gen.mvn_spec('', 2)),
    'mvnarr': (vb.MVNArray, lambda: gen.mvnarr_spec('', (2, 2))),
    'gamma': (vb.GammaParam, lambda: gen.gamma_spec('')),
    'wishart': (vb.WishartParam, lambda: gen.wishart_spec('', 2)),
    'dirichlet': (vb.DirichletParamArray, lambda: gen.dirichlet_spec('', (1, 2))),
}


def legal(ctx, spec):
    rng = ctx.rng
    value = spec.legal(rng, hard=bool(rng.rand() < 0.2))
    if spec.kind == 'uvnmom':
        var = 10. ** rng.uniform(-2, 1, size=spec.children[0].shape)
        e2 = value['e'] ** 2 + var
        if np.all(e2 > spec.children[1].lb):
            value['e2'] = e2
    if rng.rand() < 0.3:
        return units(ctx, spec, value)
    return value


def units(ctx, spec, value):
    """The same quantity measured in very different units."""
    rng = ctx.rng
    new = dict(value)
    shape = np.shape(value[spec.children[0].name]) if spec.kind in ('uvn', 'uvnvec', 'uvnarr', 'uvnmom') and rng.randint(2) else ()
    s = 10. ** rng.uniform(-9, 9, size=shape)
    if spec.kind in ('uvn', 'uvnvec', 'uvnarr', 'mvn', 'mvnarr'):
        new['mean'], new['info'] = value['mean'] * s, value['info'] / s ** 2
    elif spec.kind == 'uvnmom':
        new['e'], new['e2'] = value['e'] * s, value['e2'] * s ** 2
    elif spec.kind == 'wishart':
        new['v'] = value['v'] * s
    elif spec.kind == 'gamma':
        new['rate'] = value['rate'] * s
    if spec.legal_problem(new) is not None:
        return value
    for c in spec.children:
        lb = getattr(c, 'lb', None)
        if lb is not None and lb > -np.inf and not np.all(np.asarray(new[c.name]) > lb * (1 + 1e-6) + 1e-30):
            return value
        lb = getattr(c, 'diag_lb', None)
        if lb and not np.linalg.eigvalsh(new[c.name])[0] > lb * (1 + 1e-6):
            return value
    ctx.feat('other units')
    return new


def set_somehow(ctx, spec, obj, value):
    """Give the object this value through a random interface."""
    rng = ctx.rng
    k = rng.randint(5)
    order = [spec.children[i] for i in rng.permutation(len(spec.children))]
    if k == 0:
        for c in order:
            obj[c.name].set(np.array(value[c.name]) if np.ndim(value[c.name]) else float(value[c.name]))
    elif k == 1:
        ctx.call('set_vector', obj.set_vector, spec.pack(value))
    elif k == 2:
        twin = spec.build()
        spec.set_value(twin, value)
        ctx.call('set_free', obj.set_free, np.array(twin.get_free()))
    elif k == 3:
        for c in order:
            obj.values[c.name] = np.array(value[c.name]) if np.ndim(value[c.name]) else float(value[c.name])
    else:
        for c in order:
            obj[c.name].set_vector(c.pack(value[c.name]))
    ctx.feat(['set members', 'set vector', 'set free', 'set values', 'set member vectors'][k])


@scenario('C30', 450)
def moments(ctx):
    rng = ctx.rng
    kind = gen.DIST_KINDS[ctx.index % len(gen.DIST_KINDS)]
    if rng.rand() < 0.12:
        cls, mk = DEFAULTS[kind]
        spec = mk()
        obj = cls()
        ctx.feat('default arguments')
    else:
        spec = gen.rand_dist(rng, 'd', kind)
        obj = spec.build()
    ctx.struct(spec.describe())
    ctx.feat('kind:' + kind)
    ctx.check('members', obj.name == spec.name and list(obj.param_dict.keys()) == [c.name for c in spec.children] and
              all(obj[c.name].name == c.name for c in spec.children), lambda: '{} has {}'.format(spec.describe(), list(obj.param_dict.keys())))
    check_sizes(ctx, spec, obj)
    for step in range(int(rng.randint(1, 4))):
        set_somehow(ctx, spec, obj, legal(ctx, spec))
        if rng.rand() < 0.5:
            value = legal(ctx, spec)
            c = spec.children[rng.randint(len(spec.children))]
            obj[c.name].set_vector(c.pack(value[c.name]))
        CHECKS[kind](ctx, obj, spec.describe())
        check_sizes(ctx, spec, obj)
        if rng.rand() < 0.4:
            # The arrays it holds are edited in place.
            value = legal(ctx, spec)
            for c in spec.children:
                held = obj[c.name].get()
                if isinstance(held, np.ndarray) and held.ndim and held.flags.writeable:
                    held[...] = value[c.name]
                else:
                    obj[c.name].set(value[c.name])
            ctx.feat('edited in place')
            CHECKS[kind](ctx, obj, spec.describe() + ' edited in place')


def check_sizes(ctx, spec, obj):
    ctx.check('sizes', obj.free_size() == spec.free_size and obj.vector_size() == spec.vector_size and
              obj.get_vector().size == spec.vector_size and
              all(obj[c.name].free_size() == c.free_size and obj[c.name].vector_size() == c.vector_size for c in spec.children),
              spec.describe())
    if spec.kind == 'uvnvec':
        ctx.check('sizes', obj.size() == spec.children[0].size, spec.describe())
    if spec.kind in ('uvnarr', 'uvnmom'):
        ctx.check('sizes', tuple(obj.shape()) == tuple(spec.children[0].shape), spec.describe())


@scenario('C30', 270)
def bounds(ctx):
    """The free parameterization ends exactly at the implied lower bounds."""
    rng = ctx.rng
    kind = gen.DIST_KINDS[ctx.index % len(gen.DIST_KINDS)]
    if rng.rand() < 0.35:
        cls, mk = DEFAULTS[kind]
        spec, obj = mk(), cls()
        ctx.feat('default arguments')
    else:
        spec = gen.rand_dist(rng, 'd', kind)
        obj = spec.build()
    ctx.struct(spec.describe())
    start = spec.get_value(obj)
    problem = spec.legal_problem(start)
    ctx.check('lower bounds', problem is None, lambda: '{} starts illegal: {}'.format(spec.describe(), problem))
    ctx.call('set_free', obj.set_free, np.full(spec.free_size, -28.) if not gen._has_matrix(spec) else
             np.where(rng.rand(spec.free_size) < 0.5, -2., 0.) - rng.rand(spec.free_size))
    value = spec.get_value(obj)
    problem = spec.legal_problem(value)
    ctx.check('lower bounds', problem is None, lambda: '{}: {}'.format(spec.describe(), problem))
    for c in spec.children:
        lb = getattr(c, 'lb', None)
        if lb is not None and lb > -np.inf:
            # Approach the bound itself.
            for t in (-5., -15., -28.):
                obj[c.name].set_free(np.full(c.free_size, t))
                v = val(obj[c.name].get())
                ctx.check('lower bounds', np.all(v >= lb) and np.all(v - lb < 2 * np.exp(t) * (1 + 1e-6) + 1e-13 * abs(lb)),
                          lambda: '{} {}: {} at free {}'.format(spec.describe(), c.name, v, t))
        if getattr(c, 'diag_lb', None) is not None:
            m = np.eye(c.k) * (c.diag_lb + 1e-5 * (1 + c.diag_lb))
            obj[c.name].set(m)
            f = obj[c.name].get_free()
            ctx.check('lower bounds', np.all(np.isfinite(f)), spec.describe())
            for _ in range(3):
                f = rng.randn(c.free_size)
                for t in (0., -2., -4.):
                    obj[c.name].set_free(0.05 * f + np.where(np.abs(f) >= 0, t, 0.))
                    ev = np.linalg.eigvalsh(obj[c.name].get())
                    ctx.check('lower bounds', ev[0] >= c.diag_lb * (1 - 1e-9) - 1e-9, lambda: '{}: eigenvalues {}'.format(spec.describe(), ev))


@scenario('C30', 120)
def moment_form(ctx):
    rng = ctx.rng
    shape = gen.rand_shape(rng, max_size=12)
    src_spec = gen.uvnarr_spec('src', shape)
    src, obj = src_spec.build(), vb.UVNMomentParamArray('m', shape=shape)
    const = vb.ArrayParam('c', shape=shape)
    between = vb.UVNMomentParamArray('b', shape=shape)
    ctx.struct('moment form {}'.format(shape))
    for _ in range(3):
        if rng.randint(2):
            set_somehow(ctx, src_spec, src, src_spec.legal(rng))
            mean, info = val(src['mean'].get()), val(src['info'].get())
            if rng.randint(3) == 0:
                # By way of another moment form.
                ctx.call('set_from_uvn_param_array', between.set_from_uvn_param_array, src)
                ctx.call('set_from_uvn_param_array', obj.set_from_uvn_param_array, between)
            else:
                ctx.call('set_from_uvn_param_array', obj.set_from_uvn_param_array, src)
            want2 = mean ** 2 + 1 / info
            mon = 'set from object'
            close(ctx, mon, obj.var(), 1 / info, 1e-13 / info + 1e-15 * want2, '')
        else:
            mean = val(rng.randn(*shape) * 2)
            if rng.randint(2):
                mean = val(mean * 10. ** rng.uniform(-8, 8, size=shape))
            if rng.randint(4) == 0:
                mean = val(mean * (rng.rand(*shape) < 0.5))
            const.set(np.array(mean))
            ctx.call('set_from_constant', obj.set_from_constant, const)
            want2 = mean ** 2
            mon = 'set from constant'
            close(ctx, mon, obj.var(), np.zeros(shape), 1e-15 * want2, '')
        close(ctx, mon, obj.e(), mean, 0., '')
        close(ctx, mon, obj.e_outer(), want2, 1e-13 * want2, '')
        # Later changes of the source do not matter.
        src.set_vector(src_spec.pack(src_spec.legal(rng)))
        const.set(rng.randn(*shape))
        close(ctx, mon, obj.e(), mean, 0., 'after the source changed')
        close(ctx, mon, obj.e_outer(), want2, 1e-13 * want2, 'after the source changed')
        check_mom(ctx, obj, 'moment form')
    other = shape + (2,)
    e, e2 = val(obj.e()), val(obj.e_outer())
    ctx.refused('refused', lambda: obj.set_from_uvn_param_array(vb.UVNParamArray('x', shape=other)), 'shape')
    ctx.refused('refused', lambda: obj.set_from_constant(vb.ArrayParam('x', shape=other)), 'shape')
    close(ctx, 'refused', obj.e(), e, 0., '')
    close(ctx, 'refused', obj.e_outer(), e2, 0., '')


@scenario('C30', 40)
def arguments(ctx):
    rng = ctx.rng
    ctx.struct('arguments')
    k = int(rng.randint(1, 5))
    ctx.refused('refused', lambda: vb.WishartParam('w', size=k + 1, min_df=k - 0.5), 'too few degrees of freedom')
    ctx.refused('refused', lambda: vb.DirichletParamArray('d', shape=(2, 2), min_alpha=-0.5), 'negative bound')
    shape = gen.rand_shape(rng, max_size=8)
    v = np.exp(rng.randn(*shape)) + 0.5
    keep = v.copy()
    d = ctx.call('DirichletParamArray', vb.DirichletParamArray, 'd', shape=shape, min_alpha=0.5, val=v)
    close(ctx, 'members', d['alpha'].get(), keep, 0., 'value given at construction')
    w = vb.WishartParam('w', size=k)
    ctx.check('members', w['v'].get().shape == (k, k), 'scale matrix')
    w = vb.WishartParam('w', size=float(k), min_df=k + 1)
    ctx.check('members', w['v'].get().shape == (k, k) and w['df'].free_size() == 1, 'scale matrix')
    w['df'].set_free(np.array([-28.]))
    ctx.check('lower bounds', k + 1 <= val(w['df'].get()) < k + 1 + 1e-9, 'degrees of freedom {}'.format(w['df'].get()))
