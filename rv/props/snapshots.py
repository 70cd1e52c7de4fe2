"""C34: names, dictionary snapshots, printed form."""
import collections
import copy
import json
import numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from core import scenario, prop
import gen
from props.params import pollute

prop('C34', rule='every parameter kind and random nested collections after random histories, at random values including extreme and integer ones; the snapshot is sent through JSON text and compared number by number with the value',
     required=['snapshot keys', 'snapshot numbers', 'JSON trip', 'snapshot does not change', 'names', 'printed form'])


def compare_tree(ctx, monitor, spec, value, got, path):
    if spec.composite:
        ctx.check('snapshot keys', isinstance(got, dict) and list(sorted(got)) == sorted(c.name for c in spec.children),
                  lambda: '{}: {!r}'.format(path, got))
        for c in spec.children:
            compare_tree(ctx, monitor, c, value[c.name], got[c.name], path + '/' + c.name)
        return
    if spec.kind == 'scalar':
        # A number, or a one-element list when it was set from a vector.
        while isinstance(got, list) and len(got) == 1:
            got = got[0]
        ctx.check(monitor, isinstance(got, (int, float)) and not isinstance(got, bool) and float(got) == float(value),
                  lambda: '{}: {!r} instead of {!r}'.format(path, got, value))
        return
    a = np.array(got, dtype=float)
    ctx.same(monitor, a, np.asarray(value, float), path)
    # Nested lists of numbers, nothing else.
    def plain(x, depth):
        if depth == 0:
            return isinstance(x, (int, float)) and not isinstance(x, bool)
        return isinstance(x, list) and all(plain(y, depth - 1) for y in x)
    ctx.check(monitor, plain(got, np.ndim(value)), lambda: '{}: {!r}'.format(path, got))


def extreme(rng, spec):
    """Legal values that stress the number format."""
    v = spec.legal(rng, hard=True)
    return v


@scenario('C34', 400)
def snapshots(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, ctx, index=ctx.index)
    obj = spec.build()
    pollute(ctx, spec, obj)
    kept = []
    for step in range(4):
        k = rng.randint(4)
        if k == 0:
            spec.set_value(obj, extreme(rng, spec))
        elif k == 1:
            obj.set_free(gen.rand_free(rng, spec))
        elif k == 2:
            obj.set_vector(spec.pack(spec.legal(rng)))
        elif k == 3 and spec.composite:
            obj = copy.deepcopy(obj)
            ctx.ev('deepcopy')
        value = spec.get_value(obj)
        d = ctx.call('dictval', obj.dictval)
        compare_tree(ctx, 'snapshot numbers', spec, value, d, spec.describe())
        text = json.dumps(d)
        compare_tree(ctx, 'JSON trip', spec, value, json.loads(text), spec.describe())
        spec.same(ctx, 'reading the snapshot changes nothing', spec.get_value(obj), value)
        for d0, t0 in kept:
            ctx.check('snapshot does not change', json.dumps(d0) == t0, spec.describe())
        kept.append((d, text))
        # Writing into a snapshot does not reach the parameter.
        if rng.rand() < 0.3:
            scribble(obj.dictval())
            spec.same(ctx, 'snapshot does not change', spec.get_value(obj), value, 'after writing into a snapshot')
        check_names(ctx, spec, obj)


def scribble(d):
    if isinstance(d, dict):
        for k in list(d):
            scribble(d[k])
            d[k] = None
    elif isinstance(d, list):
        for i, x in enumerate(d):
            scribble(x)
            d[i] = -123.
    elif isinstance(d, np.ndarray):
        d[...] = -123.


def check_names(ctx, spec, obj):
    names = [str(s) for s in np.atleast_1d(obj.names())]
    ctx.check('names', names == spec.names(), lambda: '{}: {} instead of {}'.format(spec.describe(), names, spec.names()))
    s = str(obj)
    def walk(sp):
        out = [sp.name]
        if sp.composite:
            for c in sp.children:
                out.extend(walk(c))
        return out
    ctx.check('printed form', isinstance(s, str) and s.startswith(spec.name + ':') and
              all((n + ':') in s for n in walk(spec)), lambda: '{!r} lacks a name of {}'.format(s, walk(spec)))


@scenario('C34', 120)
def histories(ctx):
    """Growing, renaming and other number types."""
    rng = ctx.rng
    spec = gen.rand_dict(rng, 'd', depth=2, big=False)
    ctx.struct(spec.describe())
    obj = vb.ModelParamsDict('d')
    part = gen.DictSpec('d', [])
    for c in spec.children:
        obj.push_param(c.build())
        part = gen.DictSpec('d', part.children + [c])
        check_names(ctx, part, obj)
        compare_tree(ctx, 'snapshot numbers', part, part.get_value(obj), ctx.call('dictval', obj.dictval), 'growing')
    obj.set_name('renamed')
    part.name = 'renamed'
    check_names(ctx, part, obj)
    # After derivative computations.
    f = gen.rand_free(rng, part).clip(-2, 2)
    if part.free_size <= 12:
        o = obj_lib.Objective(obj, lambda: sum_squares(obj))
        o.fun_free_grad(f)
        obj.free_to_vector_jac(f)
    compare_tree(ctx, 'JSON trip', part, part.get_value(obj), json.loads(json.dumps(obj.dictval())), 'after derivatives')
    check_names(ctx, part, obj)
    # Numbers of other types.
    for _, leaf in part.leaves():
        if leaf.kind in ('vector', 'array') and leaf.lb == -gen.INF and leaf.ub == gen.INF:
            o = leaf.build()
            for t in (int, np.float32, np.int32, bool):
                v = (10 * rng.randn(*leaf.shape)).astype(t)
                if t is bool:
                    continue
                o.set(v)
                d = json.loads(json.dumps(ctx.call('dictval', o.dictval)))
                ctx.same('JSON trip', np.array(d, float), v.astype(float), str(t))
        if leaf.kind == 'scalar':
            o = leaf.build()
            for v in (3, 2.5, np.float64(1.5), np.array([0.25]), np.array(0.75), np.int64(2), np.float32(0.5)):
                o.set(v)
                d = json.loads(json.dumps(ctx.call('dictval', o.dictval)))
                compare_tree(ctx, 'JSON trip', leaf, float(np.ravel(v)[0]), d, repr(v))
                str(o)


def sum_squares(obj):
    import autograd.numpy as anp
    return anp.sum(obj.get_vector() ** 2)
