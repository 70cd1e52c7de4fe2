"""C06: collections."""
import collections
import numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from core import scenario, prop, Skip
import gen

prop('C06', rule='random collections (up to 12 members, nesting up to 3, members whose free and vector sizes differ) under random histories of member-wise and whole operations; a case counts when layouts were compared against a model',
     required=['free vector is the concatenation', 'vector is the concatenation', 'free index ranges', 'vector index ranges',
               'member update is local', 'whole update reaches each member', 'value view', 'index parameter', 'duplicate name refused'])


def walk(spec, obj, prefix='d'):
    """All collections in the tree."""
    out = [(prefix, spec, obj)]
    for c in spec.children:
        if c.composite:
            out.extend(walk(c, obj[c.name], prefix + '/' + c.name))
    return out


def check_layout(ctx, spec, obj):
    for path, s, o in walk(spec, obj):
        free, vec = np.array(o.get_free()), np.array(o.get_vector())
        ctx.check('free vector is the concatenation', free.shape == (s.free_size,), path)
        fo = vo = 0
        ctx.check('free index ranges', list(o.free_indices_dict.keys()) == [c.name for c in s.children], path)
        ctx.check('vector index ranges', list(o.vector_indices_dict.keys()) == [c.name for c in s.children], path)
        for c in s.children:
            fi, vi = list(o.free_indices_dict[c.name]), list(o.vector_indices_dict[c.name])
            ctx.check('free index ranges', fi == list(range(fo, fo + c.free_size)),
                      lambda: '{}[{}]: {}'.format(path, c.name, fi))
            ctx.check('vector index ranges', vi == list(range(vo, vo + c.vector_size)),
                      lambda: '{}[{}]: {}'.format(path, c.name, vi))
            ctx.same('free vector is the concatenation', free[fo:fo + c.free_size], o[c.name].get_free(), path + '/' + c.name)
            ctx.same('vector is the concatenation', vec[vo:vo + c.vector_size], o[c.name].get_vector(), path + '/' + c.name)
            fo += c.free_size
            vo += c.vector_size


@scenario('C06', 500)
def histories(ctx):
    rng = ctx.rng
    spec = gen.rand_dict(rng, 'd', depth=int(rng.randint(1, 4)))
    ctx.struct(spec.describe())
    obj = spec.build()
    model = spec.get_value(obj)
    check_layout(ctx, spec, obj)
    for step in range(rng.randint(3, 9)):
        k = rng.randint(6)
        if k == 0:
            f = gen.rand_free(rng, spec)
            ctx.call('set_free', obj.set_free, gen.layout(rng, f))
            o = 0
            # Each member as if set on its own.
            for c in spec.children:
                alone = c.build()
                alone.set_free(np.array(f[o:o + c.free_size]))
                c.close(ctx, 'whole update reaches each member', c.get_value(obj[c.name]), c.get_value(alone),
                        c.value_tol(c.get_value(alone)), 'set_free member ' + repr(c.name))
                o += c.free_size
            model = spec.get_value(obj)
        elif k == 1:
            v = spec.pack(spec.legal(rng))
            ctx.call('set_vector', obj.set_vector, gen.layout(rng, v))
            spec.same(ctx, 'whole update reaches each member', spec.get_value(obj), spec.unpack(v), 'set_vector')
            model = spec.get_value(obj)
        else:
            # Update one member somewhere in the tree.
            path, s, o = walk(spec, obj)[rng.randint(len(walk(spec, obj)))]
            c = s.children[rng.randint(len(s.children))]
            member = o[c.name]
            before = [(p, q.get_value(r)) for p, q, r in walk(spec, obj)]
            fb, vb_ = np.array(o.get_free()), np.array(o.get_vector())
            if k == 2:
                val = c.legal(rng)
                c.set_value(member, val)
                c.same(ctx, 'member update is local', c.get_value(member), val)
            elif k == 3:
                member.set_free(gen.rand_free(rng, c))
            elif k == 4:
                vec = c.pack(c.legal(rng))
                member.set_vector(vec if c.kind != 'scalar' else vec[0])
                ctx.same('member update is local', member.get_vector(), vec)
            else:
                if c.composite:
                    val = c.legal(rng)
                    view = o.values[c.name]
                    for cc in c.children:
                        if not cc.composite:
                            view[cc.name] = val[cc.name]
                            cc.same(ctx, 'value view', cc.get_value(member[cc.name]), val[cc.name])
                else:
                    val = c.legal(rng)
                    o.values[c.name] = val
                    c.same(ctx, 'value view', c.get_value(member), val)
                    ctx.same('value view', np.ravel(o.values[c.name]), np.ravel(val))
                    ctx.same('value view', np.ravel(o.get()[c.name]), np.ravel(val))
            ctx.ev('update member {} of {} kind {}'.format(c.name, path, k), member.get_vector())
            fa, va = np.array(o.get_free()), np.array(o.get_vector())
            fo = vo = 0
            for cc in s.children:
                if cc is not c:
                    ctx.same('member update is local', fa[fo:fo + cc.free_size], fb[fo:fo + cc.free_size], path + '/' + cc.name)
                    ctx.same('member update is local', va[vo:vo + cc.vector_size], vb_[vo:vo + cc.vector_size], path + '/' + cc.name)
                fo += cc.free_size
                vo += cc.vector_size
            # Nothing else in the tree moved.
            target = path + '/' + c.name
            for (p, old), (_, q, r) in zip(before, walk(spec, obj)):
                new = q.get_value(r)
                for cc in q.children:
                    full = p + '/' + cc.name
                    if not (full == target or target.startswith(full + '/') or full.startswith(target + '/')):
                        cc.same(ctx, 'member update is local', new[cc.name], old[cc.name], full)
            model = spec.get_value(obj)
        check_layout(ctx, spec, obj)
        spec.same(ctx, 'reading does not disturb', spec.get_value(obj), model)
        ctx.same('vector is the concatenation', obj.get_vector(), spec.pack(model))


@scenario('C06', 150)
def nearly_there(ctx):
    """The collection is set to what it holds already but for rounding."""
    rng = ctx.rng
    spec = gen.rand_dict(rng, 'd', depth=int(rng.randint(1, 4)))
    ctx.struct(spec.describe())
    obj = spec.build()
    free = bool(rng.randint(2))
    base = gen.rand_free(rng, spec) if free else spec.pack(spec.legal(rng))
    (obj.set_free if free else obj.set_vector)(np.array(base))
    for step in range(4):
        x = np.array(base)
        how = rng.randint(5)
        some = rng.rand(x.size) < rng.choice([0.2, 1.])
        if how == 0:
            x[some] = np.nextafter(x[some], np.inf * rng.choice([-1, 1]))
        elif how == 1:
            x[some] *= 1 + rng.uniform(-1, 1, size=int(np.sum(some))) * 10. ** rng.uniform(-15, -5)
        elif how == 2:
            x[some] += rng.uniform(-1, 1, size=int(np.sum(some))) * 10. ** rng.uniform(-15, -5)
        elif how == 3:
            # A member changes, and the whole is set to the same as before.
            path, s, o = walk(spec, obj)[rng.randint(len(walk(spec, obj)))]
            c = s.children[rng.randint(len(s.children))]
            f = np.array(o[c.name].get_free())
            o[c.name].set_free(f + rng.uniform(-1, 1, size=f.size) * 10. ** rng.uniform(-12, 0))
        ctx.call('set whole', obj.set_free if free else obj.set_vector, gen.layout(rng, x))
        msg = '{} {} {}'.format(spec.describe(), 'free' if free else 'vector', how)
        if not free:
            ctx.same('whole update reaches each member', obj.get_vector(), spec.pack(spec.unpack(x)), msg)
            continue
        o = 0
        for c in spec.children:
            alone = c.build()
            alone.set_free(np.array(x[o:o + c.free_size]))
            want = np.array(alone.get_vector())
            # A step in the free value is a step in the value.
            size = np.abs(want) if c.kind in ('scalar', 'vector', 'array') else np.max(np.abs(want))
            size = size + sum(abs(b) for b in (getattr(c, 'lb', 0.), getattr(c, 'ub', 0.)) if np.isfinite(b))
            ctx.close('whole update reaches each member', obj[c.name].get_vector(), want, 4e-15 * size + 1e-300,
                      msg + ' member ' + repr(c.name))
            o += c.free_size


@scenario('C06', 150)
def shared_arrays(ctx):
    """Members set from one array, and then set one by one."""
    rng = ctx.rng
    n = int(rng.randint(2, 5))
    kids = []
    for i in range(n):
        kids.append([gen.VectorSpec('m{}'.format(i), 3), gen.VectorSpec('m{}'.format(i), 3, lb=-50.)][rng.randint(2)] if ctx.index % 2 else gen.ArraySpec('m{}'.format(i), (2, 2)))
    inner = gen.DictSpec('in', kids[:n // 2]) if n > 2 and rng.randint(2) else None
    spec = gen.DictSpec('d', ([inner] + kids[n // 2:]) if inner else kids)
    ctx.struct('{} sharing {}'.format(n, 'nested' if inner else 'flat'))
    obj = spec.build()
    member = lambda c: obj['in'][c.name] if inner and c in inner.children else obj[c.name]
    view = lambda c: obj.values['in'] if inner and c in inner.children else (obj.get() if rng.randint(2) else obj.values)
    shape = (3,) if ctx.index % 2 else (2, 2)
    arr = rng.randn(*shape)
    kept = np.array(arr)
    model = {}
    for c in kids:
        k = rng.randint(3)
        if k == 0:
            member(c).set(arr)
        elif k == 1:
            view(c)[c.name] = arr
        else:
            member(c).set(member(kids[0]).get())
        model[c.name] = np.array(member(c).get())
    for step in range(4):
        c = kids[rng.randint(n)]
        val = rng.randn(*shape)
        k = rng.randint(4)
        if k == 0:
            member(c).set(val)
        elif k == 1:
            view(c)[c.name] = val
        elif k == 2:
            member(c).set_vector(np.ravel(val).copy())
        else:
            f = rng.randn(val.size)
            member(c).set_free(f)
            val = np.array(member(c).get())
        model[c.name] = np.array(val)
        for cc in kids:
            ctx.same('member update is local', member(cc).get(), model[cc.name], 'set {} by {}: {}'.format(c.name, k, cc.name))
        ctx.same('member update is local', arr, kept, 'the array itself')


@scenario('C06', 300)
def index_param(ctx):
    rng = ctx.rng
    if ctx.index % 3:
        spec = gen.rand_dict(rng, 'd', depth=int(rng.randint(1, 4)))
    else:
        spec = gen.rand_spec(rng, index=ctx.index // 3)
    ctx.struct(spec.describe())
    obj = spec.build()
    obj.set_free(gen.rand_free(rng, spec))
    before = spec.get_value(obj)
    ind = ctx.call('make_index_param', obj_lib.make_index_param, obj)
    n = np.arange(spec.vector_size)
    ctx.same('index parameter', ind.get_vector(), n)
    spec.same(ctx, 'index parameter', spec.get_value(ind), spec.unpack(n.astype(float)))
    ctx.check('index parameter', ind is not obj, 'is the original')
    spec.same(ctx, 'index parameter', spec.get_value(obj), before, 'original changed')
    # The indices address the member's numbers in the original's vector.
    vec = np.array(obj.get_vector())
    for (path, leaf), o, io in zip(spec.leaves(), spec.leaf_objs(obj), spec.leaf_objs(ind)):
        idx = np.ravel(io.get_vector()).astype(int)
        ctx.same('index parameter', vec[idx], o.get_vector(), '/'.join(path))


@scenario('C06', 200)
def duplicates(ctx):
    rng = ctx.rng
    spec = gen.rand_dict(rng, 'd', depth=int(rng.randint(1, 3)))
    ctx.struct(spec.describe())
    obj = spec.build()
    obj.set_free(gen.rand_free(rng, spec))
    path, s, o = walk(spec, obj)[rng.randint(len(walk(spec, obj)))]
    c = s.children[rng.randint(len(s.children))]
    vec, free, names = np.array(obj.get_vector()), np.array(obj.get_free()), list(obj.names())
    k = rng.rand()
    dup = gen.rand_leaf(rng, c.name).build() if k < 0.5 else c.build() if k < 0.75 else o[c.name]
    ctx.feat('duplicate: another kind' if k < 0.5 else 'duplicate: same kind' if k < 0.75 else 'duplicate: the member itself')
    ctx.refused('duplicate name refused', lambda: o.push_param(dup), 'name {!r} in {}'.format(c.name, path))
    ctx.same('collection unchanged after refusal', obj.get_vector(), vec)
    ctx.same('collection unchanged after refusal', obj.get_free(), free)
    ctx.check('collection unchanged after refusal', list(obj.names()) == names and
              obj.free_size() == spec.free_size and obj.vector_size() == spec.vector_size)
    check_layout(ctx, spec, obj)


@scenario('C06', 200)
def growing(ctx):
    """Members added one by one; layouts stay right after every addition."""
    rng = ctx.rng
    full = gen.rand_dict(rng, 'd', depth=2, max_members=7)
    ctx.struct(full.describe())
    obj = vb.ModelParamsDict('d')
    kids = []
    for c in full.children:
        member = c.build()
        member.set_free(gen.rand_free(rng, c))
        kids.append(c)
        ctx.call('push_param', obj.push_param, member)
        ctx.check('free vector is the concatenation', obj[c.name] is member, 'member identity')
        part = gen.DictSpec('d', list(kids))
        check_layout(ctx, part, obj)
        ctx.check('vector is the concatenation', obj.free_size() == part.free_size and obj.vector_size() == part.vector_size)
        if rng.randint(2):
            v = part.pack(part.legal(rng))
            obj.set_vector(v)
            ctx.same('whole update reaches each member', obj.get_vector(), v)
            f = gen.rand_free(rng, part)
            obj.set_free(f)
            o = 0
            for cc in kids:
                alone = cc.build()
                alone.set_free(np.array(f[o:o + cc.free_size]))
                cc.close(ctx, 'whole update reaches each member', cc.get_value(obj[cc.name]), cc.get_value(alone),
                         cc.value_tol(cc.get_value(alone)), 'set_free while growing')
                o += cc.free_size


@scenario('C06', 80)
def empty_members(ctx):
    """Members without any numbers, anywhere among the others."""
    rng = ctx.rng
    specs, d = [], vb.ModelParamsDict('d')
    for i in range(int(rng.randint(2, 7))):
        name, k = 'm{}'.format(i), rng.randint(5)
        if k == 0:
            p, n = vb.VectorParam(name, 0), 0
        elif k == 1:
            p, n = vb.ArrayParam(name, shape=[(0, 2), (2, 0)][rng.randint(2)], lb=0.), 0
        else:
            n = int(rng.randint(1, 4))
            p = vb.VectorParam(name, n)
        specs.append((name, n))
        ctx.call('push_param', d.push_param, p)
    total = sum(n for _, n in specs)
    ctx.struct('sizes {}'.format([n for _, n in specs]))
    if total == 0:
        raise Skip('nothing but empty members')
    ctx.check('vector is the concatenation', d.vector_size() == total and d.free_size() == total)
    for step in range(3):
        v = rng.randn(total)
        (d.set_free if rng.randint(2) else d.set_vector)(v)
        ctx.same('whole update reaches each member', d.get_vector(), v, '{}'.format(specs))
        ctx.same('whole update reaches each member', d.get_free(), v, '{}'.format(specs))
        o = 0
        for name, n in specs:
            ctx.same('vector is the concatenation', d[name].get_vector(), v[o:o + n], name)
            ctx.check('vector index ranges', list(d.vector_indices_dict[name]) == list(range(o, o + n)), name)
            ctx.check('free index ranges', list(d.free_indices_dict[name]) == list(range(o, o + n)), name)
            o += n
