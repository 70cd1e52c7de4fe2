"""C32: sparse matrix utilities."""
import json
import numpy as np
import scipy as sp
from scipy import sparse
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.Parameters as par_lib

from core import scenario, prop, Skip

prop('C32', rule='random shapes including single and empty rows and columns, densities from empty to full, number types, repeated and unsorted indices, six sparse formats and mixes of operands; every result is compared with dense arrays built entry by entry',
     required=['placed block', 'placed shape', 'placed hessian', 'offset', 'packed shape', 'packed values', 'packed storage', 'JSON packed shape', 'JSON packed values', 'JSON text',
               'product', 'squeezed', 'arguments unchanged', 'refused'],
     assumptions=['finite values where JSON is involved', 'blocks and index vectors of consistent size'])

FORMATS = ['csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'dia']


def dense(m):
    return np.array(m.todense()) if sparse.issparse(m) else np.array(m)


class Frozen(object):
    """The arguments before and after."""

    def __init__(self, ctx, *args):
        self.ctx, self.args = ctx, args
        self.before = [self.buffers(a) for a in args]

    @staticmethod
    def buffers(a):
        """What the argument means; a sparse matrix may be put in order
        without changing."""
        if sparse.issparse(a):
            return [np.array(a.shape), dense(a), np.array(sorted(a.format))]
        return [np.array(a)]

    def done(self):
        for a, old in zip(self.args, self.before):
            new = self.buffers(a)
            self.ctx.check('arguments unchanged', len(new) == len(old) and all(x.dtype == y.dtype for x, y in zip(new, old)), 'number types')
            for x, y in zip(new, old):
                self.ctx.same('arguments unchanged', x, y)


def values(ctx, size, kinds=None):
    rng = ctx.rng
    k = (kinds or ['float', 'wide', 'int', 'float32', 'complex', 'tiny'])
    k = k[rng.randint(len(k))]
    ctx.feat('values ' + k)
    if k == 'wide':
        return rng.normal(size=size) * 10. ** rng.uniform(-30, 30, size=size)
    if k == 'int':
        return rng.randint(-9, 10, size=size)
    if k == 'float32':
        return rng.normal(size=size).astype(np.float32)
    if k == 'complex':
        return rng.normal(size=size) + 1j * rng.normal(size=size)
    if k == 'tiny':
        return rng.normal(size=size) * 10. ** rng.uniform(-320, -300, size=size)
    return rng.normal(size=size)


def sprinkle(ctx, a):
    """Zero entries, whole rows and whole columns."""
    a = np.array(a)
    a[ctx.rng.rand(*a.shape) < ctx.rng.choice([0., 0.3, 0.8, 1.])] = 0
    if ctx.rng.rand() < 0.3 and a.shape[0]:
        a[ctx.rng.randint(a.shape[0])] = 0
    if ctx.rng.rand() < 0.3 and a.shape[1]:
        a[:, ctx.rng.randint(a.shape[1])] = 0
    return a


def indices(ctx, n, dim):
    """n positions below dim, repeated or not, in any order, of any type."""
    rng = ctx.rng
    k = rng.randint(4)
    if k == 0 and n <= dim:
        ind = np.sort(rng.permutation(dim)[:n])
    elif k == 1 and n <= dim:
        ind = rng.permutation(dim)[:n]
    elif k == 2:
        ind = rng.randint(0, dim, size=n)
    else:
        # The edges.
        ind = np.array([(0, dim - 1)[rng.randint(2)] for _ in range(n)], dtype=int)
    t = rng.randint(5)
    if t == 0:
        return [int(i) for i in ind]
    if t == 1:
        return ind.astype(np.int32)
    if t == 2:
        # An index parameter's vector holds floats.
        return ind.astype(float)
    if t == 3:
        return tuple(int(i) for i in ind)
    return ind.astype(np.int64)


def place(ctx, block, rows, cols, shape):
    want, size = np.zeros(shape, dtype=np.result_type(block, float)), np.zeros(shape)
    for i in range(block.shape[0]):
        for j in range(block.shape[1]):
            want[int(rows[i]), int(cols[j])] += block[i, j]
            size[int(rows[i]), int(cols[j])] += abs(block[i, j])
    return want, size


def compare(ctx, monitor, got, want, size, msg=''):
    got = np.asarray(got)
    eps = 3e-7 if got.dtype in (np.float32, np.complex64) else 4e-16
    k = 1 + np.count_nonzero(size)
    if np.iscomplexobj(got) or np.iscomplexobj(want):
        ctx.close(monitor, np.real(got), np.real(want), eps * size * k, msg)
        ctx.close(monitor, np.imag(got), np.imag(want), eps * size * k, msg)
    else:
        ctx.close(monitor, got, want, eps * size * k, msg)


@scenario('C32', 400)
def placing(ctx):
    rng = ctx.rng
    square = rng.rand() < 0.4
    nr, nc = [int(v) for v in rng.randint(0, 6, size=2)]
    rd, cd = [int(v) for v in rng.randint(1, 9, size=2)]
    if square:
        nc, cd = nr, rd
    block = sprinkle(ctx, values(ctx, (nr, nc)))
    if rng.rand() < 0.2:
        block = np.asfortranarray(block)
    rows = indices(ctx, nr, rd)
    cols = rows if square else indices(ctx, nc, cd)
    ctx.struct('{} {} block into {} {}'.format(nr, nc, rd, cd))
    frozen = Frozen(ctx, block, rows, cols)
    if square:
        got = ctx.call('get_sparse_sub_hessian', obj_lib.get_sparse_sub_hessian, block, rows, rd)
        mon = 'placed hessian'
    else:
        got = ctx.call('get_sparse_sub_matrix', obj_lib.get_sparse_sub_matrix, block, rows, cols, rd, cd)
        mon = 'placed block'
    frozen.done()
    ctx.check('placed shape', sparse.issparse(got) and tuple(got.shape) == (rd, cd), lambda: repr(got))
    want, size = place(ctx, block, rows, cols, (rd, cd))
    d = dense(got)
    ctx.ev('placed', d)
    compare(ctx, mon, d, want, size)
    # Nothing is kept where nothing was placed: no stray stored entry.
    coo = sparse.coo_matrix(got)
    ctx.check('placed block', all(size[i, j] > 0 for i, j, v in zip(coo.row, coo.col, coo.data) if v != 0), 'stray entries')
    # A position outside the declared shape cannot be honoured.
    if nr and nc and not square and rng.rand() < 0.3:
        bad = [int(i) for i in rows]
        bad[rng.randint(nr)] = rd + int(rng.randint(0, 3))
        full = np.ones((nr, nc))
        ctx.refused('refused', lambda: obj_lib.get_sparse_sub_matrix(full, bad, cols, rd, cd), 'row outside the matrix')


@scenario('C32', 120)
def undefined(ctx):
    """Entries that are infinite or not a number stay where they are, and
    stay alone."""
    rng = ctx.rng
    nr, nc = [int(v) for v in rng.randint(1, 6, size=2)]
    rd, cd = nr + int(rng.randint(0, 4)), nc + int(rng.randint(0, 4))
    block = sprinkle(ctx, rng.normal(size=(nr, nc)))
    for _ in range(int(rng.randint(1, 4))):
        block[rng.randint(nr), rng.randint(nc)] = [np.nan, np.inf, -np.inf][rng.randint(3)]
    ctx.struct('undefined {} {} into {} {}'.format(nr, nc, rd, cd))
    square = nr == nc and rng.rand() < 0.7
    rows = rng.permutation(rd)[:nr]
    cols = rng.permutation(cd)[:nc]
    if square:
        cols, cd = rows, rd
    frozen = Frozen(ctx, block, rows, cols)
    if square:
        got = ctx.call('get_sparse_sub_hessian', obj_lib.get_sparse_sub_hessian, block, rows, rd)
    else:
        got = ctx.call('get_sparse_sub_matrix', obj_lib.get_sparse_sub_matrix, block, rows, cols, rd, cd)
    frozen.done()
    want = np.zeros((rd, cd))
    want[np.ix_(rows, cols)] = block
    ctx.same('placed hessian' if square else 'placed block', dense(got), want)
    ctx.same('squeezed', ctx.call('compress', obj_lib.compress, got), want.reshape([s for s in want.shape if s != 1]))
    csr = got.tocsr()
    frozen = Frozen(ctx, csr)
    back = ctx.call('unpack_csr_matrix', obj_lib.unpack_csr_matrix, ctx.call('pack_csr_matrix', obj_lib.pack_csr_matrix, csr))
    frozen.done()
    identical(ctx, 'packed', back, csr)
    off = (int(rng.randint(0, 3)), int(rng.randint(0, 3)))
    full = np.zeros((rd + off[0] + 1, cd + off[1]))
    full[off[0]:off[0] + rd, off[1]:off[1] + cd] = want
    moved = ctx.call('offset_sparse_matrix', par_lib.offset_sparse_matrix, sparse.coo_matrix(csr), off, full.shape)
    ctx.same('offset', dense(moved), full)


@scenario('C32', 60)
def assembled(ctx):
    """A Hessian assembled from overlapping blocks, as users do."""
    rng = ctx.rng
    dim = int(rng.randint(3, 30))
    tot, want, size = sparse.csr_matrix((dim, dim)), np.zeros((dim, dim)), np.zeros((dim, dim))
    for _ in range(rng.randint(1, 8)):
        n = int(rng.randint(1, min(dim, 6)))
        ind = rng.permutation(dim)[:n]
        block = rng.normal(size=(n, n))
        tot = tot + ctx.call('get_sparse_sub_hessian', obj_lib.get_sparse_sub_hessian, sub_hessian=block, full_indices=ind, full_hess_dim=dim)
        w, s = place(ctx, block, ind, ind, (dim, dim))
        want, size = want + w, size + s
    ctx.struct('dimension {}'.format(dim))
    compare(ctx, 'placed hessian', dense(tot), want, size)


@scenario('C32', 120)
def offsets(ctx):
    rng = ctx.rng
    nr, nc = [int(v) for v in rng.randint(1, 6, size=2)]
    a = sprinkle(ctx, values(ctx, (nr, nc), ['float', 'int', 'wide']))
    m = sparse.coo_matrix(a)
    if rng.rand() < 0.3 and m.nnz:
        # Repeated entries add up.
        m = sparse.coo_matrix((np.concatenate([m.data, m.data]), (np.concatenate([m.row, m.row]), np.concatenate([m.col, m.col]))), (nr, nc))
    off = tuple(int(v) for v in rng.randint(0, 5, size=2))
    full = (nr + off[0] + int(rng.randint(0, 4)), nc + off[1] + int(rng.randint(0, 4)))
    ctx.struct('{} at {} in {}'.format((nr, nc), off, full))
    want = np.zeros(full)
    want[off[0]:off[0] + nr, off[1]:off[1] + nc] = dense(m)
    frozen = Frozen(ctx, m)
    got = ctx.call('offset_sparse_matrix', par_lib.offset_sparse_matrix, m, off, full)
    frozen.done()
    ctx.check('offset', sparse.issparse(got) and tuple(got.shape) == full, 'shape')
    ctx.ev('offset', dense(got))
    compare(ctx, 'offset', dense(got), want, np.abs(want))


def random_sparse(ctx, kinds=None):
    rng = ctx.rng
    k = rng.randint(5)
    nr, nc = [int(v) for v in rng.randint(1, 8, size=2)]
    if k == 0:
        nr = 1
    elif k == 1:
        nc = 1
    elif k == 2 and rng.rand() < 0.5:
        nr, nc = [int(v) for v in rng.randint(10, 60, size=2)]
    a = sprinkle(ctx, values(ctx, (nr, nc), kinds))
    m = sparse.csr_matrix(a)
    if m.nnz and rng.rand() < 0.25:
        # Explicitly stored zeros, unsorted columns and repeated entries are
        # all legal storage.
        ind, ptr, dat = [], [0], []
        for i in range(nr):
            js = [j for j in range(nc) if a[i, j] != 0 or rng.rand() < 0.2]
            js = [js[t] for t in rng.permutation(len(js))]
            if js and rng.rand() < 0.3:
                js.append(js[0])
            ind += js
            dat += [a[i, j] for j in js]
            ptr.append(len(ind))
        m = sparse.csr_matrix((np.array(dat, dtype=a.dtype), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(nr, nc))
        ctx.feat('irregular storage')
    if rng.rand() < 0.1:
        # An actual view of a bigger buffer.
        m = sparse.csr_matrix((m.data, m.indices.astype(np.int64), m.indptr.astype(np.int64)), shape=m.shape)
    ctx.struct('{} {} {} stored {}'.format(nr, nc, a.dtype, 'few' if m.nnz < nr * nc / 2 else 'many'))
    return m


def identical(ctx, prefix, got, m):
    ctx.check(prefix + ' shape', sparse.isspmatrix_csr(got) and tuple(got.shape) == tuple(m.shape), lambda: '{!r} from {!r}'.format(got, m))
    ctx.check(prefix + ' values', got.dtype == m.dtype, lambda: '{} instead of {}'.format(got.dtype, m.dtype))
    ctx.same(prefix + ' values', dense(got), dense(m))
    ctx.ev('unpacked', dense(got))


@scenario('C32', 240)
def packing(ctx):
    m = random_sparse(ctx)
    form = FORMATS[ctx.rng.randint(len(FORMATS))] if ctx.rng.rand() < 0.4 else 'csr'
    if form != 'csr':
        if form in ('lil', 'dok', 'dia', 'bsr', 'csc'):
            m.sum_duplicates()
        m = m.asformat(form)
    frozen = Frozen(ctx, m)
    d = ctx.call('pack_csr_matrix', obj_lib.pack_csr_matrix, m)
    ctx.check('packed storage', isinstance(d, dict), repr(type(d)))
    # Through plain arrays, as when saved to a file.
    saved = dict((k, np.array(v) if isinstance(v, np.ndarray) else v) for k, v in d.items())
    got = ctx.call('unpack_csr_matrix', obj_lib.unpack_csr_matrix, saved)
    frozen.done()
    identical(ctx, 'packed', got, m.tocsr())
    if form == 'csr':
        ctx.same('packed storage', got.data, m.data)
        ctx.same('packed storage', got.indices, m.indices)
    got = obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(got))
    identical(ctx, 'packed', got, m.tocsr())


@scenario('C32', 160)
def json_packing(ctx):
    m = random_sparse(ctx)
    frozen = Frozen(ctx, m)
    d = ctx.call('json_pack_csr_matrix', obj_lib.json_pack_csr_matrix, m)
    text = json.dumps(d)
    ctx.check('JSON text', isinstance(text, str), '')
    ctx.ev('text of {} characters'.format(len(text)))
    back = json.loads(text)
    got = ctx.call('json_unpack_csr_matrix', obj_lib.json_unpack_csr_matrix, back)
    identical(ctx, 'JSON packed', got, m)
    identical(ctx, 'JSON packed', obj_lib.json_unpack_csr_matrix(d), m)
    frozen.done()
    # Several matrices in one document.
    other = random_sparse(ctx)
    doc = json.loads(json.dumps({'a': obj_lib.json_pack_csr_matrix(m), 'b': obj_lib.json_pack_csr_matrix(other)}))
    identical(ctx, 'JSON packed', obj_lib.json_unpack_csr_matrix(doc['b']), other)
    identical(ctx, 'JSON packed', obj_lib.json_unpack_csr_matrix(doc['a']), m)
    if ctx.rng.rand() < 0.3:
        bad = dict(back, type='csc_matrix')
        ctx.refused('refused', lambda: obj_lib.json_unpack_csr_matrix(bad), 'another type of matrix')
    if ctx.rng.rand() < 0.3:
        ctx.refused('refused', lambda: obj_lib.json_pack_csr_matrix(dense(m)), 'a dense matrix')


def entries(m):
    m = sparse.coo_matrix(m)
    out = {}
    for i, j, v in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
        out[i, j] = out.get((i, j), 0.) + v
    return dict((k, v) for k, v in out.items() if v != 0)


@scenario('C32', 60)
def wide(ctx):
    """Few entries in matrices with more rows or columns than narrow integer
    types can count."""
    rng = ctx.rng
    big = lambda: int(10. ** rng.uniform(2, 6)) + int(rng.choice([0, 2 ** 8, 2 ** 15, 2 ** 16]))
    nr, nc = [(int(rng.randint(1, 5)), big()), (big(), int(rng.randint(1, 5))), (big(), big())][ctx.index % 3]
    ctx.struct('{} {}'.format(len(str(nr)), len(str(nc))))
    k, l = int(rng.randint(1, min(6, nr) + 1)), int(rng.randint(1, min(6, nc) + 1))
    rows = rng.choice(nr, size=k, replace=False) if nr < 1000 else np.append(rng.randint(nr, size=k - 1), nr - 1)
    cols = rng.choice(nc, size=l, replace=False) if nc < 1000 else np.append(rng.randint(nc, size=l - 1), nc - 1)
    block = rng.randn(k, l)
    m = ctx.call('get_sparse_sub_matrix', obj_lib.get_sparse_sub_matrix, block, rows, cols, nr, nc)
    ctx.check('placed shape', tuple(m.shape) == (nr, nc), lambda: str(m.shape))
    want = entries(sparse.coo_matrix((block.ravel(), (np.repeat(rows, l), np.tile(cols, k))), shape=(nr, nc)))
    ctx.check('placed block', entries(m) == want, lambda: '{} instead of {}'.format(entries(m), want))
    m = sparse.csr_matrix(m)
    for mon, got in (('packed', obj_lib.unpack_csr_matrix(ctx.call('pack_csr_matrix', obj_lib.pack_csr_matrix, m))),
                     ('JSON packed', obj_lib.json_unpack_csr_matrix(json.loads(json.dumps(ctx.call('json_pack_csr_matrix', obj_lib.json_pack_csr_matrix, m)))))):
        ctx.check(mon + ' shape', tuple(got.shape) == (nr, nc), lambda: str(got.shape))
        ctx.check(mon + ' values', entries(got) == want, lambda: '{} instead of {}'.format(entries(got), want))
    if nc < 20000 and nr < 20000:
        x = rng.randn(nc)
        prod = np.zeros(nr)
        for (i, j), v in want.items():
            prod[i] += v * x[j]
        ctx.close('product', ctx.call('safe_matmul', obj_lib.safe_matmul, m, x), prod, 1e-12 * (1 + np.abs(prod)))


def operand(ctx, a):
    """The same matrix, dense or sparse."""
    k = ctx.rng.randint(4)
    if k == 0:
        return a, 'array'
    if k == 1:
        return np.asmatrix(a), 'matrix'
    form = FORMATS[ctx.rng.randint(len(FORMATS))]
    return sparse.csr_matrix(a).asformat(form), form


@scenario('C32', 240)
def products(ctx):
    rng = ctx.rng
    n, k, m = [int(v) for v in rng.randint(1, 7, size=3)]
    if rng.rand() < 0.3:
        n = k = m = int(rng.randint(1, 6))
    a = sprinkle(ctx, values(ctx, (n, k), ['float', 'int', 'float']))
    vec = rng.randint(4)
    if vec == 0:
        b = np.asarray(values(ctx, k, ['float', 'int']))
        x, fx = operand(ctx, a)
        y, fy = b, 'vector'
        if fx == 'matrix' and n == 1:
            pass
    elif vec == 1 and rng.rand() < 0.6:
        # A row vector on the left.
        b = a
        a = np.asarray(values(ctx, n, ['float', 'int']))
        x, fx = a, 'vector'
        y, fy = operand(ctx, b)
    else:
        b = sprinkle(ctx, values(ctx, (k, m), ['float', 'int', 'float']))
        x, fx = operand(ctx, a)
        y, fy = operand(ctx, b)
    ctx.struct('{} {} times {} {}'.format(fx, np.shape(a), fy, np.shape(b)))
    frozen = Frozen(ctx, x, y)
    got = ctx.call('safe_matmul', obj_lib.safe_matmul, x, y)
    frozen.done()
    A, B = np.atleast_2d(a), (b[:, None] if b.ndim == 1 else b)
    want, size = np.zeros((A.shape[0], B.shape[1])), np.zeros((A.shape[0], B.shape[1]))
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            want[i, j] = float(np.sum(A[i] * B[:, j]))
            size[i, j] = float(np.sum(np.abs(A[i] * B[:, j])))
    g = dense(got)
    shape = tuple(a.shape[:-1]) + tuple(b.shape[1:])
    if 'vector' in (fx, fy) and 'matrix' in (fx, fy):
        # Numpy matrices stay two-dimensional.
        ctx.check('product', g.size == int(np.prod(shape)), 'shape {}'.format(g.shape))
        g = g.reshape(shape)
    ctx.close('product', g, want.reshape(shape), 1e-14 * (size.reshape(shape) + 0) * (1 + A.shape[1]))
    sq = ctx.call('compress', obj_lib.compress, got)
    ctx.same('squeezed', sq, dense(got).reshape([s for s in np.shape(got) if s != 1]))
    ctx.check('squeezed', type(sq) is np.ndarray, repr(type(sq)))


@scenario('C32', 120)
def squeezing(ctx):
    rng = ctx.rng
    if rng.rand() < 0.5:
        m = random_sparse(ctx, ['float', 'int', 'float32', 'complex'])
        m.sum_duplicates()
        x, f = operand(ctx, dense(m))
        shape = m.shape
        a = dense(m)
    else:
        shape = tuple(int(v) for v in rng.randint(1, 4, size=rng.randint(0, 5)))
        a = np.asarray(rng.normal(size=shape))
        x, f = (a, 'array') if a.ndim != 2 else operand(ctx, a)
        if a.ndim == 0 and rng.rand() < 0.5:
            x, f = float(a), 'number'
    ctx.struct('{} {}'.format(f, shape))
    frozen = Frozen(ctx, x)
    got = ctx.call('compress', obj_lib.compress, x)
    ctx.check('squeezed', type(got) is np.ndarray, repr(type(got)))
    ctx.same('squeezed', got, a.reshape([s for s in shape if s != 1]))
    frozen.done()
