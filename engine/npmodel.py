"""Models of the numpy / scipy / sympy / builtin operations used by the analysed package."""
import functools
import ast
from .values import *

# injected by interp
NEWAXIS = ELLIPSIS = UNDEF = None
norm_index = norm_bound = None

POLY_METHODS = {'subs', 'item', 'real', 'imag', 'diff', 'conj', 'conjugate', 'dtype'}
OBJ_METHODS = {'keys', 'values', 'items', 'get', 'index', 'append', 'extend', 'insert', 'update', 'split', 'lower', 'upper',
               'strip', 'startswith', 'endswith', 'pop', 'sort', 'copy', 'format', 'join', 'replace', 'setdefault', 'remove', 'count',
               'fill', 'sum', 'dot', 'reshape', 'tolist', 'astype', 'clear', 'add', 'isdigit', 'find'}


class Masked:
    """arr[mask] or arr[np.nonzero(arr)] used only under a reduction"""
    __slots__ = ('reader', 'shape', 'cond')

    def __init__(self, reader, shape, cond):
        self.reader, self.shape, self.cond = reader, shape, cond


class Nonzero:
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


# ---------------------------------------------------------------- arrays

def reader(I, v):
    """(shape, idx->Poly) of an array-like value, or None"""
    if isinstance(v, Arr):
        return v.shape, I.content(v)
    if isinstance(v, Poly):
        return (), (lambda idx: v)
    a = as_array(I, v)
    if a is None:
        return None
    return a.shape, I.content(a)


def as_array(I, v, dtype=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Rng):
        return I.new_arr((I.length(v),), lambda idx: v.lo + idx[0] * v.step, 'i')
    if isinstance(v, (Lst, Tup, Seq)):
        segs = I.get(('l', v.id)) if isinstance(v, Lst) else (v.segs if isinstance(v, Seq) else [Seg((), ONE, x) for x in v.vals])
        if any(not isinstance(s, Seg) for s in segs):
            return None
        if all(s.plain for s in segs):
            n = len(segs)
            subs = []
            for s in segs:
                x = s.value
                if isinstance(x, (Lst, Tup, Seq)):
                    x = as_array(I, x)
                    if x is None:
                        return None
                subs.append(x)
            if n == 0:
                return I.new_arr((ZERO,), lambda idx: ZERO)
            if all(isinstance(x, Arr) for x in subs):
                shp = subs[0].shape
                if any(len(x.shape) != len(shp) for x in subs):
                    return None
                rs = [I.content(x) for x in subs]
                return I.new_arr((num(n),) + tuple(shp), lambda idx: pick(idx[0], [(lambda r=r: r(idx[1:])) for r in rs]), subs[0].dtype)
            ts = [I.to_term(x) for x in subs]
            return I.new_arr((num(n),), lambda idx: pick(idx[0], [(lambda t=t: t) for t in ts]), dtype or 'f')
        if len(segs) == 1 and len(segs[0].loops) == 1 and segs[0].guard.const == 1:
            (var, n), x = segs[0].loops[0], segs[0].value
            if isinstance(x, (Lst, Tup, Seq)):
                x = as_array(I, x)
                if x is None:
                    return None
            if isinstance(x, Arr):
                if any(var in s.fv for s in x.shape):
                    return None
                r = I.content(x)
                vs = [fresh('a') for _ in x.shape]
                with facts(P(var), n - 1 - P(var), *[P(q) for q in vs]):
                    body = r(tuple(P(q) for q in vs))
                return I.new_arr((n,) + tuple(x.shape), lambda idx: subst(body, dict([(var, idx[0])] + list(zip(vs, idx[1:])))), x.dtype)
            t = I.to_term(x)
            return I.new_arr((n,), lambda idx: subst(t, {var: idx[0]}), dtype or 'f')
        return None
    if isinstance(v, IteV):
        a, b = as_array(I, v.a), as_array(I, v.b)
        if a is None or b is None or len(a.shape) != len(b.shape) or not all(same(x, y) for x, y in zip(a.shape, b.shape)):
            return None
        fa, fb, c = I.content(a), I.content(b), v.c
        return I.new_arr(a.shape, lambda idx: ite(c, fa(idx), fb(idx)), a.dtype)
    return None


def pick(i, fs):
    """element i of a short list of thunks"""
    c = i.const
    if c is not None:
        k = int(c)
        if -len(fs) <= k < len(fs):
            return fs[k]()
        return app('outofrange', (i,))
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        r = ite(eq0(i - k), fs[k](), r)
    return r


def bshape(I, shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for d in range(n):
        cur = ONE
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if x.const == 1:
                continue
            if cur.const == 1:
                cur = x
            elif cur is not x and not is_zero(cur - x):
                if cur.const is not None and x.const is None:
                    pass
                elif x.const is not None and cur.const is None:
                    cur = x
                I.taint('shapes %s and %s' % (show(cur), show(x)))
        out.append(cur)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of the given shape for a broadcast index"""
    k = len(idx) - len(shape)
    return tuple(ZERO if s.const == 1 else idx[k + d] for d, s in enumerate(shape))


def broadcast_reader(I, v, shape, dtype='f'):
    if isinstance(v, IteV):
        a, b = broadcast_reader(I, v.a, shape, dtype), broadcast_reader(I, v.b, shape, dtype)
        if a is None or b is None:
            return None
        return lambda idx: ite(v.c, a(idx), b(idx))
    if isinstance(v, Poly):
        if shape and v.terms and all(a.kind == 'mat' for a in v.atoms()):
            return lambda idx: app('matat', (v,) + tuple(idx))
        return lambda idx: v
    if dtype == 'O' and not shape:
        t = I.to_term(v)
        return lambda idx: t
    if isinstance(v, (Lst, Tup, Seq, Rng, Arr)):
        a = as_array(I, v)
        if a is None:
            return None
        r = I.content(a)
        s = a.shape
        if dtype == 'O' or len(s) < len(shape):
            k = len(shape) - len(s)
            if a.dtype == 'O' and k > 0 and len(s) >= 1 and s[0] is shape[0] and not (s[-1] is shape[-1] and len(s) == 1 and len(shape) == 1):
                # 1-d object array of matrices stored into a stack of matrices
                def g(idx):
                    x = r(tuple(idx[:len(s)]))
                    return at_matrix(x, tuple(idx[len(s):]))
                return g
        extra = max(0, len(s) - len(shape))

        def f(idx):
            ii = (ZERO,) * extra + bidx(s[extra:], idx)
            return r(ii)
        return f
    if isinstance(v, (Fn, Bound)):
        t = I.to_fun(v)
        return lambda idx: t
    t = I.to_term(v)
    return lambda idx: t


def bd_blocks(a):
    """the blocks of a block-diagonal accumulation whose parts are all known, else None"""
    if a.head != 'accum' or a.args[0] != 'bd':
        return None
    out = []
    for x in [a.args[1]] + list(a.args[2]):
        if isinstance(x, Lam):
            vs, b = open_lam(x)
            if vs:
                return None
            ns, g, x = b
            if ns or g.const != 1:
                return None
        y = x.atom if isinstance(x, Poly) else None
        if y is None or y.head != 'arr' or len(y.args[0]) not in (1, 2):
            return None
        sh = y.args[0]
        out.append((sh if len(sh) == 2 else (ONE, sh[0]), y.args[1], len(sh)))
    return out


def matat(x, idx):
    a = x.atom
    if a is not None and a.head == 'arr' and len(a.args[0]) == len(idx):
        return open_lam(a.args[1], list(idx))
    if a is not None and len(idx) == 2:
        bs = bd_blocks(a)
        if bs is not None:
            r, o, p = ZERO, ZERO, ZERO
            i, j = idx
            for (m, n), lam, nd in bs:
                if m.const == 0 or n.const == 0:
                    o, p = o + m, p + n
                    continue
                inside = ONE
                reg = (i - o, o + m - 1 - i, j - p, p + n - 1 - j)
                for q in reg:
                    inside = inside * (ONE - lt0(q))
                if not is_zero(inside):
                    with facts(*reg):
                        b = open_lam(lam, [i - o, j - p] if nd == 2 else [j - p])
                    r = r + inside * b
                o, p = o + m, p + n
            return r
    return None


def at_matrix(x, idx):
    r = matat(x, idx)
    return r if r is not None else app('matat', (x,) + tuple(idx))


def _smart_matat(x, *idx, kind='num'):
    r = matat(x, idx)
    return r if r is not None else raw_app('matat', (x,) + tuple(idx))


SMART['matat'] = _smart_matat


def elementwise(I, f, vals, dtype=None):
    for k, v in enumerate(vals):
        if isinstance(v, IteV):
            a, b = list(vals), list(vals)
            a[k], b[k] = v.a, v.b
            return I.join(v.c, elementwise(I, f, a, dtype), elementwise(I, f, b, dtype))
    if all(isinstance(v, Poly) for v in vals):
        return f(*vals)
    rs = []
    for v in vals:
        if isinstance(v, (SymObj, Obj, Fn, Bound, Ext, Cls, Method)):
            t = I.to_term(v)
            rs.append(((), (lambda idx, t=t: t)))
            continue
        if isinstance(v, Masked):
            return I.opaque('masked')
        r = reader(I, v)
        if r is None:
            I.taint('elementwise on ' + type(v).__name__)
            return I.opaque('elementwise')
        rs.append(r)
    shape = bshape(I, [s for s, _ in rs])
    if not shape:
        return f(*[r(()) for _, r in rs])
    if dtype is None:
        ds = [v.dtype for v in vals if isinstance(v, Arr)]
        dtype = 'O' if 'O' in ds else (ds[0] if ds else 'f')
    memo = [(s, r) for s, r in rs]
    return I.new_arr(shape, lambda idx: f(*[r(bidx(s, idx)) for s, r in memo]), dtype)


def _floor(p):
    if p.isint:
        return p
    c = p.const
    if c is not None:
        return num(c.numerator // c.denominator)
    return app('floor', (p,), 'int')


def _smart_floor(p, kind='int'):
    if p.isint:
        return p
    return raw_app('floor', (p,), kind)


SMART['floor'] = _smart_floor


@smart('mod')
def mkmod(a, b, kind='num'):
    if a.const is not None and b.const is not None and b.const != 0:
        q = a.const / b.const
        return num(a.const - b.const * (q.numerator // q.denominator))
    if b.isint and a.isint:
        # an index already in range
        if prove_ge0(a) and prove_ge0(b - 1 - a):
            return a
        if prove_ge0(-a - 1) and prove_ge0(a + b):
            return a + b
        k = 'int'
        return raw_app('mod', (a, b), 'int')
    r = _within_period(a, b)
    return r if r is not None else raw_app('mod', (a, b))


def _within_period(a, b):
    """a = q b + r with a whole q and 0 <= r < b"""
    for bm, bc in b.terms:
        q = {}
        for m, c in a.terms:
            d = dict(m)
            if all(d.get(x, 0) >= e > 0 for x, e in bm):
                for x, e in bm:
                    d[x] -= e
                m2 = tuple((x, e) for x, e in m if d[x])
                m2 = tuple((x, d[x]) for x, e in m2)
                q[m2] = q.get(m2, 0) + c / bc
        q = mkpoly(q)
        r = a - q * b
        if q.isint and prove_ge0(r) and lt0(r - b).const == 1:
            return r
    return None


def scalar_binop(I, op, a, b):
    t = type(op)
    if t is ast.Add:
        return a + b
    if t is ast.Sub:
        return a - b
    if t is ast.Mult:
        return a * b
    if t is ast.Div:
        if b.const == 0:
            return app('divzero', (a,))
        return div(a, b)
    if t is ast.Pow:
        return mkpow(a, b)
    if t is ast.Mod:
        return mkmod(a, b)
    if t is ast.FloorDiv:
        return _floor(div(a, b))
    if t is ast.BitAnd:
        return b_and(I.truth(a), I.truth(b))
    if t is ast.BitOr:
        return b_or(I.truth(a), I.truth(b))
    return I.opaque('op:' + t.__name__, (a, b))


@smart('pow')
def mkpow(a, b, kind='num'):
    c = b.const
    if c is not None:
        if c.denominator == 1 and abs(c) <= 12:
            return ipow(a, int(c))
        if c.denominator == 2 and abs(c) <= 6:
            n = int(c * 2)
            return ipow(app('sqrt', (a,)), n)
    return raw_app('pow', (a, b))


def array_binop(I, op, a, b):
    if isinstance(a, (SymObj,)):
        a = a.term
    if isinstance(b, (SymObj,)):
        b = b.term
    return elementwise(I, lambda x, y: scalar_binop(I, op, x, y), [a, b])


def scalar_compare(op, a, b):
    t = type(op)
    if t in (ast.Eq, ast.Is):
        return eq(a, b)
    if t in (ast.NotEq, ast.IsNot):
        return b_not(eq(a, b))
    if t is ast.Lt:
        return lt0(a - b)
    if t is ast.Gt:
        return lt0(b - a)
    if t is ast.LtE:
        return b_not(lt0(b - a))
    if t is ast.GtE:
        return b_not(lt0(a - b))
    return ind('cmp:' + t.__name__, (a, b))


def ssum(n, f):
    """sum_{k<n} f(k)"""
    c = n.const
    if c is not None and c <= 4:
        r = ZERO
        for k in range(int(c)):
            r = r + f(num(k))
        return r
    v = fresh('s')
    with facts(P(v), n - 1 - P(v)):
        body = f(P(v))
    return mksum(v, ZERO, n, body)


def matmul(I, a, b, dot=False):
    if isinstance(a, IteV):
        return I.join(a.c, matmul(I, a.a, b, dot), matmul(I, a.b, b, dot))
    if isinstance(b, IteV):
        return I.join(b.c, matmul(I, a, b.a, dot), matmul(I, a, b.b, dot))
    for x in (a, b):
        if isinstance(x, Poly) and x.terms and any(at.kind == 'mat' for at in x.atoms()):
            return app('matmul', (I.to_term(a), I.to_term(b)), 'mat')
    ra, rb = reader(I, a), reader(I, b)
    if ra is None or rb is None:
        I.taint('matmul')
        return I.opaque('matmul')
    (sa, fa), (sb, fb) = ra, rb
    if not sa or not sb:
        return elementwise(I, lambda x, y: x * y, [a, b])
    if len(sa) == 1 and len(sb) == 1:
        n = _same_dim(I, sa[0], sb[0])
        return ssum(n, lambda k: fa((k,)) * fb((k,)))
    if len(sb) == 1:
        n = _same_dim(I, sa[-1], sb[0])
        return I.new_arr(sa[:-1], lambda idx: ssum(n, lambda k: fa(idx + (k,)) * fb((k,))))
    if len(sa) == 1:
        n = _same_dim(I, sa[0], sb[-2])
        return I.new_arr(sb[:-2] + sb[-1:], lambda idx: ssum(n, lambda k: fa((k,)) * fb(idx[:-1] + (k,) + idx[-1:])))
    n = _same_dim(I, sa[-1], sb[-2])
    if dot:
        # a[..., i, k] b[..., k, j] -> all leading axes of a, then those of b
        la, lb = len(sa) - 1, len(sb) - 2
        shape = sa[:-1] + sb[:-2] + sb[-1:]
        return I.new_arr(shape, lambda idx: ssum(n, lambda k: fa(idx[:la] + (k,)) * fb(idx[la:la + lb] + (k, idx[-1]))))
    lead = bshape(I, [sa[:-2], sb[:-2]])
    return I.new_arr(lead + (sa[-2], sb[-1]), lambda idx: ssum(n, lambda k: fa(bidx(sa[:-2], idx[:-2]) + (idx[-2], k)) *
                                                               fb(bidx(sb[:-2], idx[:-2]) + (k, idx[-1]))))


def _same_dim(I, x, y):
    if x is y or is_zero(x - y):
        return x
    I.taint('contraction over %s and %s' % (show(x), show(y)))
    return x


def einsum(I, spec, ops):
    spec = spec.replace(' ', '')
    ins, out = (spec.split('->') + [None])[:2]
    ins = ins.split(',')
    if len(ins) != len(ops):
        return I.opaque('einsum')
    rds = [reader(I, o) for o in ops]
    if any(r is None for r in rds):
        I.taint('einsum')
        return I.opaque('einsum')
    labs = []
    dims = {}
    nell = 0
    for s, (shape, _) in zip(ins, rds):
        if '...' in s:
            pre, post = s.split('...')
            k = len(shape) - len(pre) - len(post)
            if k < 0:
                I.taint('einsum rank')
                return I.opaque('einsum')
            l = list(pre) + [('e', k - 1 - i) for i in range(k)] + list(post)
            nell = max(nell, k)
        else:
            l = list(s)
        if len(l) != len(shape):
            I.taint('einsum rank')
            return I.opaque('einsum')
        labs.append(l)
        for x, n in zip(l, shape):
            if x not in dims or dims[x].const == 1:
                dims[x] = n
            elif n.const != 1:
                _same_dim(I, dims[x], n)
    if out is None:
        cnt = {}
        for l in labs:
            for x in l:
                if isinstance(x, str):
                    cnt[x] = cnt.get(x, 0) + 1
        outl = [('e', nell - 1 - i) for i in range(nell)] + sorted(x for x in cnt if cnt[x] == 1)
    else:
        if '...' in out:
            pre, post = out.split('...')
            outl = list(pre) + [('e', nell - 1 - i) for i in range(nell)] + list(post)
        else:
            outl = list(out)
    summed = [x for x in dims if x not in outl]

    def f(idx):
        env = dict(zip(outl, idx))

        def rec(i):
            if i == len(summed):
                r = ONE
                for l, (shape, rd) in zip(labs, rds):
                    r = r * rd(tuple(ZERO if n.const == 1 else env[x] for x, n in zip(l, shape)))
                    if not r.terms:
                        return ZERO
                return r
            x = summed[i]

            def body(k):
                env[x] = k
                return rec(i + 1)
            return ssum(dims[x], body)
        return rec(0)
    if not outl:
        return f(())
    return I.new_arr(tuple(dims[x] for x in outl), f)


def inv_arr(I, a):
    r = reader(I, a)
    if r is None or len(r[0]) < 2:
        I.taint('inv')
        return I.opaque('inv')
    shape, f = r
    n = shape[-1]
    return I.new_arr(shape, lambda idx: matinv(n, lambda x, y: f(idx[:-2] + (x, y)), idx[-2], idx[-1]))


def transpose(I, a):
    perm = {d: len(a.shape) - 1 - d for d in range(len(a.shape))}
    axes = [x if x[0] == 'fix' else ('ax', perm[x[1]], x[2], x[3]) for x in a.axes]
    return Arr(a.cell, axes, tuple(reversed(a.shape)), a.dtype)


def _regroup(shape, dims, f):
    """reader of an array whose elements, in order, are those of f"""
    def flat(idx):
        r = ZERO
        for i, n in zip(idx, dims):
            r = r * n + i
        return r
    tot = lambda q: functools.reduce(lambda x, y: x * y, q, ONE)
    if not is_zero(tot(shape) - tot(dims)):
        return None
    if len(shape) == 1:
        return lambda idx: f((flat(idx),))
    cs = [n.const for n in shape]
    if any(c is None for c in cs) or tot(shape).const > 64:
        return None
    total = int(tot(shape).const)

    def place(k):
        out = []
        for c in reversed(cs):
            out.append(num(k % int(c)))
            k //= int(c)
        return tuple(reversed(out))

    def g(idx):
        k = flat(idx)
        if k.const is not None:
            return f(place(int(k.const)))
        r = ZERO
        for x in range(total):
            w = eq0(k - x)
            if not is_zero(w):
                r = r + w * f(place(x))
        return r
    return g


def reshape(I, a, dims):
    r = reader(I, a)
    if r is None:
        I.taint('reshape')
        return I.opaque('reshape')
    shape, f = r
    dims = [topoly(d) for d in dims]
    if any(d.const == -1 for d in dims):
        k = [i for i, d in enumerate(dims) if d.const == -1][0]
        rest = ONE
        for i, d in enumerate(dims):
            if i != k:
                rest = rest * d
        tot = ONE
        for s in shape:
            tot = tot * s
        dims[k] = div(tot, rest)
    old = [(i, s) for i, s in enumerate(shape) if s.const != 1]
    new = [(i, s) for i, s in enumerate(dims) if s.const != 1]
    if len(old) == len(new) and all(x[1] is y[1] or is_zero(x[1] - y[1]) for x, y in zip(old, new)):
        m = {o[0]: n[0] for o, n in zip(old, new)}
        dt = a.dtype if isinstance(a, Arr) else 'f'
        if isinstance(a, Arr):
            # a view
            axes = []
            inv = m
            for x in a.axes:
                if x[0] == 'fix':
                    axes.append(x)
                elif x[1] in m:
                    axes.append(('ax', m[x[1]], x[2], x[3]))
                else:
                    axes.append(('fix', x[2]))
            return Arr(a.cell, axes, tuple(dims), dt)
        return I.new_arr(tuple(dims), lambda idx: f(tuple(idx[m[i]] if i in m else ZERO for i in range(len(shape)))), dt)
    g = _regroup(shape, dims, f)
    if g is not None:
        return I.new_arr(tuple(dims), g, a.dtype if isinstance(a, Arr) else 'f')
    I.taint('reshape')
    return I.opaque('reshape')


def block(I, v):
    """np.block of a (nested) list"""
    if isinstance(v, (Lst, Tup, Seq)):
        seq = I.to_seq(v)
        if seq is None or not all(s.plain for s in seq.segs):
            return None
        items = [s.value for s in seq.segs]
        depth = 2 if all(isinstance(x, (Lst, Tup)) for x in items) else 1
        subs = [block(I, x) if isinstance(x, (Lst, Tup)) else as2(I, x) for x in items]
        if any(s is None for s in subs):
            return None
        return concat(I, subs, 0 if depth == 2 else -1)
    return as2(I, v)


def as2(I, x):
    if isinstance(x, Poly) and x.terms and any(a.kind == 'mat' for a in x.atoms()):
        return None
    r = reader(I, x)
    if r is None:
        return None
    shape, f = r
    if len(shape) == 0:
        return I.new_arr((ONE, ONE), lambda idx: f(()))
    if len(shape) == 1:
        return I.new_arr((ONE, shape[0]), lambda idx: f((idx[1],)))
    return x


def concat(I, arrs, axis):
    shapes = [a.shape for a in arrs]
    nd = len(shapes[0])
    if any(len(s) != nd for s in shapes):
        return None
    if axis < 0:
        axis += nd
    offs = [ZERO]
    for s in shapes:
        offs.append(offs[-1] + s[axis])
    rs = [I.content(a) for a in arrs]
    shape = list(shapes[0])
    shape[axis] = offs[-1]

    def f(idx):
        i = idx[axis]
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            if shapes[k][axis].const == 0:
                continue
            x = rs[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:]) if r is None or True else None
            r = x if r is None else ite(lt0(i - offs[k + 1]), x, r)
        return ZERO if r is None else r

    # evaluate with the facts of each branch
    def g(idx):
        i = idx[axis]
        parts = [k for k in range(len(arrs)) if shapes[k][axis].const != 0]
        if not parts:
            return ZERO

        def rec(p):
            k = parts[p]
            val = lambda: rs[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:])
            if p == len(parts) - 1:
                with facts(i - offs[k]):
                    return val()
            c = lt0(i - offs[k + 1])
            if c.const == 1:
                return val()
            if c.const == 0:
                return rec(p + 1)
            with facts(offs[k + 1] - 1 - i):
                a = val()
            with facts(i - offs[k + 1]):
                b = rec(p + 1)
            return ite(c, a, b)
        return rec(0)
    return I.new_arr(tuple(shape), g, arrs[0].dtype)


def shape_of(I, v):
    if isinstance(v, Poly):
        if v.kind if False else False:
            return None
        return (v,)
    if isinstance(v, (Tup, Lst, Seq)):
        q = I.to_seq(v)
        if q is not None and all(s.plain for s in q.segs):
            out = []
            for s in q.segs:
                x = s.value
                if not isinstance(x, Poly):
                    return None
                out.append(x)
            return tuple(out)
    if isinstance(v, Arr) and len(v.shape) == 1 and v.shape[0].const is not None:
        return tuple(I.read(v, (num(k),)) for k in range(int(v.shape[0].const)))
    return None


def dtype_of(I, v, default='f'):
    if v is None:
        return default
    if isinstance(v, Ext):
        n = v.name.split('.')[-1]
    elif isinstance(v, Poly) and v.atom is not None and v.atom.head == 'str':
        n = v.atom.args[0]
    else:
        return default
    if n in ('object', 'object_', 'ndarray'):
        return 'O'
    if n.startswith('int'):
        return 'i'
    if n.startswith('complex'):
        return 'c'
    if n.startswith('bool'):
        return 'b'
    return 'f'


def axis_reduce(I, v, axis, f1):
    """reduce one axis of an array with f1(n, k->Poly)"""
    r = reader(I, v)
    if r is None:
        return None
    shape, f = r
    if axis is None or not isinstance(axis, Poly) or axis is NONE:
        if not shape:
            return f(())

        def rec(pre, dims):
            if not dims:
                return f(pre)
            return f1(dims[0], lambda k: rec(pre + (k,), dims[1:]))
        return rec((), shape)
    d = int(axis.const)
    if d < 0:
        d += len(shape)
    rest = shape[:d] + shape[d + 1:]
    if not rest:
        return f1(shape[0], lambda k: f((k,)))
    return I.new_arr(rest, lambda idx: f1(shape[d], lambda k: f(idx[:d] + (k,) + idx[d:])))


def norm(I, v, axis=None):
    if isinstance(v, Poly):
        return app('abs', (v,))
    if axis is None or axis is NONE:
        s = axis_reduce(I, v, None, lambda n, f: ssum(n, lambda k: f(k)))
        r = reader(I, v)
        if r is None:
            I.taint('norm')
            return I.opaque('norm', (), 'num')
        shape, f = r

        def rec(pre, dims):
            if not dims:
                return sq(f(pre))
            return ssum(dims[0], lambda k: rec(pre + (k,), dims[1:]))
        return app('sqrt', (rec((), shape),))
    r = reader(I, v)
    if r is None:
        I.taint('norm')
        return I.opaque('norm', (), 'num')
    sqr = elementwise(I, sq, [v])
    s = axis_reduce(I, sqr, axis, ssum)
    return elementwise(I, lambda p: app('sqrt', (p,)), [s])


def sq(p):
    return p * p


def extremum(I, head, v):
    if isinstance(v, Masked):
        r, shape, cond = v.reader, v.shape, v.cond
    else:
        rr = reader(I, v)
        if rr is None:
            return I.opaque(head, (I.to_term(v),), 'num')
        shape, r = rr
        cond = None
    if not shape:
        return r(())
    if cond is None and len(shape) == 1 and shape[0].const is not None and shape[0].const <= 4:
        xs = [r((num(k),)) for k in range(int(shape[0].const))]
        out = xs[0]
        for x in xs[1:]:
            out = min2(out, x) if head == 'min' else max2(out, x)
        return out
    vs = [fresh('e') for _ in shape]
    fs = []
    for q, n in zip(vs, shape):
        fs += [P(q), n - 1 - P(q)]
    with facts(*fs):
        idx = tuple(P(q) for q in vs)
        body = r(idx)
        g = ONE
        if cond is not None:
            g = cond(idx)
    return mkextreme(head, list(zip(vs, shape)), g, body)


def mkextreme(head, dims, g, body):
    """min/max of body over the dims where g holds.  A selection of the non-zero entries of a
    diagonal (delta) stack of positive numbers is the extremum over the diagonal."""
    # eliminate delta-selected dimensions
    changed = True
    while changed:
        changed = False
        ats = [a for a in body.atoms() if a.head == 'eq0']
        if g.const != 1 and len(body.terms) >= 1 and ats:
            a = ats[0]
            if all(any(x is a for x, e in m) for m, c in body.terms):
                for (v, n) in dims:
                    s = solve_for(a.args[0], v)
                    if s is not None and len(dims) > 1:
                        body = subst(cofactor(body, a, 1), {v: s})
                        g = subst(cofactor(g, a, 1), {v: s})
                        dims = [d for d in dims if d[0] is not v]
                        changed = True
                        break
    g2 = g
    if g.const is None:
        # g says: body != 0; lengths are positive
        if g is b_not(eq0(body)):
            g2 = ONE
    dims = [d for d in dims if d[0] in body.fv or d[0] in g2.fv]
    if not dims and g2.const == 1:
        return body
    if len(dims) == 1 and g2.const == 1:
        v, n = dims[0]
        if n.const is not None and n.const <= 4:
            xs = [subst(body, {v: num(k)}) for k in range(int(n.const))]
            out = xs[0]
            for x in xs[1:]:
                out = min2(out, x) if head == 'min' else max2(out, x)
            return out
        r = piecewise_extreme(head, v, n, body)
        if r is not None:
            return r
    import itertools
    best = None
    for p in itertools.permutations(dims):
        l = mklam([v for v, _ in p], (tuple(n for _, n in p), g2, body))
        if best is None or l.key < best.key:
            best = l
    return P(Atom(head + 'all', (best,)))


def piecewise_extreme(head, v, n, body):
    """extremum of a body that is constant on each of a few index ranges"""
    vals = []

    def cases(b, path):
        ats = [x for x in b.atoms() if x.head in IDEM]
        if not ats:
            vals.append((path, b))
            return
        x = ats[0]
        if x not in [y for y, _ in path]:
            cases(cofactor(b, x, 1), path + [(x, 1)])
            cases(cofactor(b, x, 0), path + [(x, 0)])
    cases(body, [])
    if not vals or any(v in b.fv for _, b in vals) or any(v not in x.fv for p, _ in vals for x, _ in p):
        return None
    for path, w in vals:
        if not all(prove_ge0(o - w if head == 'min' else w - o) for _, o in vals):
            continue
        for at in (ZERO, n - 1):
            if all(subst(P(x), {v: at}).const == val for x, val in path):
                return w
    return None


def min2(a, b):
    return ite(lt0(b - a), b, a)


def max2(a, b):
    return ite(lt0(a - b), b, a)


SMART['min2'] = lambda a, b, kind='num': min2(a, b)
SMART['max2'] = lambda a, b, kind='num': max2(a, b)


def argmin(I, v, head='argmin'):
    r = reader(I, v)
    if r is None or len(r[0]) != 1:
        I.taint('argmin')
        return I.opaque('argmin', (), 'int')
    (n,), f = r
    k = fresh('m')
    with facts(P(k), n - 1 - P(k)):
        body = f((P(k),))
    if head == 'argmax':
        body = -body
    return mkargmin(n, k, body)


def anyall(I, v, isany, axis=None):
    r = reader(I, v)
    if r is None:
        return ind('any' if False else ('anyof' if isany else 'allof'), (I.to_term(v),))
    shape, f = r

    def rec(pre, dims):
        if not dims:
            t = I.truth(f(pre))
            return t if isany else b_not(t)
        n = dims[0]
        c = n.const
        if c is not None and c <= 4:
            out = ZERO
            for k in range(int(c)):
                out = b_or(out, rec(pre + (num(k),), dims[1:]))
            return out
        k = fresh('y')
        with facts(P(k), n - 1 - P(k)):
            b = rec(pre + (P(k),), dims[1:])
        return mkany_v(k, n, b)
    out = rec((), shape)
    return out if isany else b_not(out)


@smart('len')
def _s_len(x, kind='int'):
    a = x.atom
    if a is not None:
        if a.head == 'accum' and a.args[0] == 'app':
            r = app('len', (a.args[1],), 'int')
            for l in a.args[2]:
                vs, (ns, g, val) = open_lam(l)
                t = g * app('len1', (val,), 'int')
                for v, n in reversed(list(zip(vs, ns))):
                    t = mksum(v, ZERO, n, t)
                r = r + t
            return r
        if a.head == 'arr':
            return a.args[0][0] if a.args[0] else raw_app('len', (x,), 'int')
        if a.head in ('listval', 'tuple') and all(isinstance(y, Poly) and not (y.atom is not None and y.atom.head == 'guarded') for y in a.args):
            return num(len(a.args))
        if a.head in ('listval',):
            r = ZERO
            for y in a.args:
                if isinstance(y, Lam):
                    vs, (ns, g, val) = open_lam(y)
                    t = g
                    for v, n in reversed(list(zip(vs, ns))):
                        t = mksum(v, ZERO, n, t)
                    r = r + t
                elif isinstance(y, Poly) and y.atom is not None and y.atom.head == 'guarded':
                    r = r + y.atom.args[0]
                elif isinstance(y, Poly):
                    r = r + ONE
                else:
                    return raw_app('len', (x,), 'int')
            return r
    return raw_app('len', (x,), 'int')


@smart('len1')
def _s_len1(x, kind='int'):
    """number of elements np.append adds for x"""
    a = x.atom
    if a is not None and a.head == 'arr':
        return a.args[0][0] if a.args[0] else ONE
    return ONE


# ---------------------------------------------------------------- attributes

EXT_CONST = {'numpy.pi': ('pi', ()), 'math.pi': ('pi', ()), 'sympy.pi': ('pi', ())}


def ext_attr(I, e, name):
    full = e.name + '.' + name
    if full == 'numpy.newaxis':
        return NEWAXIS
    if full == 'sympy.Symbol' or full == 'numpy.inf':
        pass
    if full in EXT_CONST:
        return app('pi', ())
    if full in ('numpy.inf', 'math.inf'):
        return app('inf', ())
    if full in ('numpy.float64', 'numpy.double', 'numpy.float_'):
        return Ext('numpy.float64')
    return Ext(full)


ARR_METHODS = {'dot', 'copy', 'sum', 'reshape', 'fill', 'astype', 'flatten', 'ravel', 'min', 'max', 'argmin', 'argmax', 'mean', 'any', 'all',
               'conj', 'conjugate', 'tolist', 'transpose', 'item', 'squeeze', 'nonzero', 'diagonal', 'prod', 'cumsum', 'round'}


def arr_attr(I, a, name):
    if name == 'T':
        return transpose(I, a)
    if name == 'shape':
        return Tup(a.shape)
    if name == 'size':
        r = ONE
        for s in a.shape:
            r = r * s
        return r
    if name == 'ndim':
        return num(len(a.shape))
    if name == 'real':
        return elementwise(I, lambda p: app('real', (p,)), [a])
    if name == 'dtype':
        return app('dtype', (string(a.dtype),), 'obj')
    if name in ARR_METHODS:
        return Method(a, name)
    return I.opaque('array attribute ' + name)


@smart('real')
def _real(p, kind='num'):
    if p.const is not None:
        return p
    if _real_valued(p):
        return p
    return raw_app('real', (p,))


COMPLEX_HEADS = {'J', 'eig', 'real', 'imag', 'conj', 'conjugate', 'opaque', 'fft', 'item', 'attr', 'call', 'fun', 'accum', 'append', 'arr'}


def _real_valued(p):
    """real by construction: built from real symbols, or complex only through sums over all poles of a
    model (the poles and residues of a real system come in conjugate pairs, so such sums are real)"""
    for m, _c in p.terms:
        pole_sum = any(a.head in ('sum', 'vsum') for a, _e in m)
        for a, _e in m:
            if a.head == 'J' and pole_sum:
                continue
            if a.head in ('sum', 'vsum') and not (_heads(a) & {'eig', 'opaque', 'fft'}):
                continue
            if a.kind not in ('num', 'int') or a.opaque or _heads(a) & COMPLEX_HEADS:
                return False
    return True


def _heads(a):
    out = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Lam):
            rec(x.body)
        elif isinstance(x, Poly):
            for y in x.atoms():
                rec(y)
        elif isinstance(x, Atom):
            out.add(x.head)
            for y in x.args:
                rec(y)
    rec(a)
    return out


# ---------------------------------------------------------------- fancy indexing

def fancy_index(I, a, key):
    if isinstance(key, Nonzero):
        r = I.content(a)
        if isinstance(key.arr, Arr):
            c = I.content(key.arr)
            return Masked(r, a.shape, lambda idx: b_not(eq0(c(idx))))
    if isinstance(key, Arr) and key.dtype == 'b' and len(key.shape) == len(a.shape):
        c = I.content(key)
        return Masked(I.content(a), a.shape, lambda idx: I.truth(c(idx)))
    if isinstance(key, Arr) and key.dtype == 'b' and len(key.shape) == 1:
        c = I.content(key)
        t = I.to_term(a)
        return app('maskrows', (t, I.to_term(key)), 'obj')
    if isinstance(key, (Lst, Arr)):
        k = as_array(I, key)
        if k is not None and len(k.shape) == 1:
            kr, r = I.content(k), I.content(a)
            n = a.shape[0]
            return I.new_arr(k.shape + a.shape[1:], lambda idx: r((norm_index(kr((idx[0],)), n),) + idx[1:]), a.dtype)
    if isinstance(key, Tup):
        ks = list(key.vals)
        arrs = [i for i, k in enumerate(ks) if isinstance(k, (Arr, Lst, Rng))]
        if len(arrs) == 1:
            i = arrs[0]
            k = as_array(I, ks[i])
            if k is not None and len(k.shape) == 1 and k.dtype != 'b':
                kr = I.content(k)
                nreal = [x for x in ks if x is not NEWAXIS]
                if len(nreal) == len(ks) and all(isinstance(x, (Poly, Slice)) or j == i for j, x in enumerate(ks)):
                    ks += [Slice(None, None, None)] * (a.ndim - len(ks))
                    shape = []
                    maps = []
                    for j, x in enumerate(ks):
                        if j == i:
                            shape.append(k.shape[0])
                            maps.append(('g', len(shape) - 1))
                        elif isinstance(x, Slice):
                            if x.step is not None and x.step.const != 1:
                                return I.opaque('fancy index')
                            lo = ZERO if x.lo is None else norm_bound(x.lo, a.shape[j])
                            hi = a.shape[j] if x.hi is None else norm_bound(x.hi, a.shape[j])
                            shape.append(hi - lo)
                            maps.append(('s', len(shape) - 1, lo))
                        else:
                            maps.append(('f', norm_index(x, a.shape[j])))
                    r = I.content(a)

                    def f(idx):
                        out = []
                        for m in maps:
                            if m[0] == 'g':
                                out.append(kr((idx[m[1]],)))
                            elif m[0] == 's':
                                out.append(idx[m[1]] + m[2])
                            else:
                                out.append(m[1])
                        return r(tuple(out))
                    return I.new_arr(tuple(shape), f, a.dtype)
    I.taint('fancy index')
    return I.opaque('fancy index')


def fancy_store(I, a, key, val):
    """a[index array, ...] = val"""
    keys = list(key.vals) if isinstance(key, Tup) else [key]
    if len(keys) > a.ndim:
        return False
    keys += [Slice(None, None, None)] * (a.ndim - len(keys))
    arrs = [i for i, k in enumerate(keys) if isinstance(k, (Arr, Lst, Rng))]
    if len(arrs) == 1 and all(isinstance(k, (Poly, Slice)) or i in arrs for i, k in enumerate(keys)):
        i = arrs[0]
        k = as_array(I, keys[i])
        if k is not None and len(k.shape) == 1 and k.dtype != 'b' and isinstance(val, Poly):
            kr = I.content(k)
            n = k.shape[0]
            old = I.content(a)

            def cond(idx):
                c = ONE
                for j, x in enumerate(keys):
                    if j == i:
                        w = fresh('w')
                        with facts(P(w), n - 1 - P(w)):
                            b = eq0(kr((P(w),)) - idx[j])
                        if n.const is not None and n.const <= 4:
                            o = ZERO
                            for q in range(int(n.const)):
                                o = b_or(o, eq0(kr((num(q),)) - idx[j]))
                            c = c * o
                        else:
                            c = c * mkany_v(w, n, b)
                    elif isinstance(x, Poly):
                        c = c * eq0(idx[j] - norm_index(x, a.shape[j]))
                    else:
                        lo = ZERO if x.lo is None else norm_bound(x.lo, a.shape[j])
                        hi = a.shape[j] if x.hi is None else norm_bound(x.hi, a.shape[j])
                        c = c * b_not(lt0(idx[j] - lo)) * lt0(idx[j] - hi)
                return c
            I.store_view(a, lambda idx: ite(cond(idx), val, old(idx)))
            return True
    return False


# ---------------------------------------------------------------- calls

def kwget(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def call_ext(I, name, args, kw):
    short = name.split('.')[-1]
    lib = name.split('.')[0]
    f = EXT.get(name)
    if f is None and lib in ('numpy', 'math', 'sympy', 'scipy'):
        f = EXT.get('*.' + short)
    if f is not None:
        r = f(I, args, kw)
        if r is not None:
            return r
    targs = tuple(I.to_term(a) for a in args) + tuple(app('kw', (k, I.to_term(v)), 'obj') for k, v in sorted(kw.items()))
    # logged: an effect on the outside world, or an unmodelled pure function
    if lib == 'builtins' and short in ('print', 'input'):
        return NONE
    if lib == 'missing':
        return I.opaque('missing ' + name)
    if lib in ('builtins',) and short[0].isupper():
        return app('new', (short,) + targs, 'obj')
    I.log('ext:' + name, targs)
    return app('ext:' + name, targs, 'obj')


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


# constructors

@ext('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.ndarray', 'numpy.full')
def _dummy(I, args, kw):
    return None


def _ctor(fill):
    def g(I, args, kw):
        sh = kwget(args, kw, 0, 'shape')
        s = shape_of(I, sh)
        if s is None:
            I.taint('array shape')
            return I.opaque('array')
        dt = dtype_of(I, kwget(args, kw, 1, 'dtype'))
        if fill is None:
            return I.new_arr(s, lambda idx: app('uninit', tuple(idx)), dt)
        return I.new_arr(s, lambda idx: fill, dt)
    return g


EXT['numpy.zeros'] = _ctor(ZERO)
EXT['numpy.ones'] = _ctor(ONE)
EXT['numpy.empty'] = _ctor(None)
EXT['numpy.ndarray'] = _ctor(None)


@ext('numpy.full')
def _full(I, args, kw):
    s = shape_of(I, kwget(args, kw, 0, 'shape'))
    if s is None:
        return None
    v = kwget(args, kw, 1, 'fill_value')
    dt = dtype_of(I, kwget(args, kw, 2, 'dtype'))
    f = broadcast_reader(I, v, s, dt)
    return None if f is None else I.new_arr(s, f, dt)


def _like(fill):
    def g(I, args, kw):
        r = reader(I, args[0])
        if r is None:
            return None
        return I.new_arr(r[0], (lambda idx: fill) if fill is not None else (lambda idx: app('uninit', tuple(idx))),
                         args[0].dtype if isinstance(args[0], Arr) else 'f')
    return g


EXT['numpy.zeros_like'] = _like(ZERO)
EXT['numpy.ones_like'] = _like(ONE)
EXT['numpy.empty_like'] = _like(None)


@ext('numpy.eye', 'numpy.identity')
def _eye(I, args, kw):
    n = kwget(args, kw, 0, 'N')
    return I.new_arr((n, n), lambda idx: eq0(idx[0] - idx[1]))


@ext('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.atleast_1d')
def _array(I, args, kw):
    v = args[0]
    if isinstance(v, IteV):
        return I.join(v.c, _array(I, [v.a] + args[1:], kw), _array(I, [v.b] + args[1:], kw))
    dt = kwget(args, kw, 1, 'dtype')
    d = dtype_of(I, dt) if dt is not None else None
    if isinstance(v, Poly):
        if v.atom is not None and v.atom.kind == 'obj':
            return I.typed(app('asarray', (v,), 'obj'))
        return v
    if isinstance(v, SymObj):
        return I.typed(app('asarray', (v.term,), 'obj'))
    a = as_array(I, v, d)
    if a is None:
        return app('asarray', (I.to_term(v),), 'obj')
    f = I.content(a)
    return I.new_arr(a.shape, f, d or a.dtype)


@ext('numpy.arange')
def _arange(I, args, kw):
    args = [a for a in args if isinstance(a, Poly)]
    if len(args) == 1:
        return Rng(ZERO, args[0])
    if len(args) == 2:
        return Rng(args[0], args[1])
    return Rng(args[0], args[1], args[2])


@ext('builtins.range')
def _range(I, args, kw):
    args = [I.to_term(a) for a in args]
    if len(args) == 1:
        return Rng(ZERO, args[0])
    if len(args) == 2:
        return Rng(args[0], args[1])
    return Rng(args[0], args[1], args[2])


# algebra

@ext('numpy.matmul')
def _matmul(I, args, kw):
    return matmul(I, args[0], args[1])


@ext('numpy.dot')
def _dot(I, args, kw):
    return matmul(I, args[0], args[1], True)


@ext('numpy.inner')
def _inner(I, args, kw):
    if all(isinstance(a, Arr) and a.ndim == 1 for a in args):
        return matmul(I, args[0], args[1])


@ext('numpy.linalg.multi_dot')
def _mdot(I, args, kw):
    q = I.to_seq(args[0])
    r = None
    for s in q.segs:
        r = s.value if r is None else matmul(I, r, s.value, True)
    return r


@ext('numpy.outer')
def _outer(I, args, kw):
    a, b = reader(I, args[0]), reader(I, args[1])
    return I.new_arr(a[0] + b[0], lambda idx: a[1](idx[:1]) * b[1](idx[1:]))


@ext('numpy.einsum')
def _einsum(I, args, kw):
    s = I.to_term(args[0]).atom
    if s is None or s.head != 'str':
        return None
    return einsum(I, s.args[0], args[1:])


@ext('numpy.linalg.inv', 'scipy.linalg.inv')
def _inv(I, args, kw):
    return inv_arr(I, args[0])


@ext('numpy.linalg.solve', 'scipy.linalg.solve')
def _solve(I, args, kw):
    A, b = args[0], args[1]
    return matmul(I, inv_arr(I, A), b)


@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(I, args, kw):
    v = args[0]
    if isinstance(v, IteV):
        return I.join(v.c, _norm(I, [v.a] + args[1:], kw), _norm(I, [v.b] + args[1:], kw))
    return norm(I, v, kw.get('axis', args[2] if len(args) > 2 else None))


@ext('scipy.linalg.eigvals', 'numpy.linalg.eigvals')
def _eig(I, args, kw):
    a = args[0]
    if isinstance(a, Arr):
        if a.shape[-1].const == 1:
            r = I.content(a)
            return I.new_arr(a.shape[:-1], lambda idx: r(idx + (ZERO,)) if len(a.shape) == 2 else r(idx + (ZERO,)))
        r = I.content(a)
        n = a.shape[-1]

        def f(idx):
            x, y = fresh('r'), fresh('c')
            with facts(P(x), P(y), n - 1 - P(x), n - 1 - P(y)):
                b = r(idx[:-1] + (P(x), P(y)))
            return raw_app('eig', (n, mklam([x, y], b), idx[-1]))
        return I.new_arr(a.shape[:-1], f)
    return None


@ext('scipy.linalg.block_diag')
def _block_diag(I, args, kw):
    rs = [] if not I.loops else None
    for a in args if rs is not None else ():
        if isinstance(a, Poly) and kind_of(a) not in ('num', 'int'):
            rs = None
            break
        x = reader(I, a)
        if x is None or len(x[0]) > 2 or not all(q.const is not None for q in x[0]):
            rs = None
            break
        sh = x[0]
        # one-dimensional operands are single rows, numbers single entries
        f = (lambda f: lambda i, j: f((i, j)))(x[1]) if len(sh) == 2 else (lambda f: lambda i, j: f((j,)))(x[1]) if len(sh) == 1 else (lambda f: lambda i, j: f(()))(x[1])
        rs.append((sh if len(sh) == 2 else (ONE, sh[0] if sh else ONE), f))
    if rs:
        n, m = sum((x[0][0] for x in rs), ZERO), sum((x[0][1] for x in rs), ZERO)

        def content(idx):
            i, j = idx
            r = ZERO
            a = b = ZERO
            for (p, q), f in rs:
                w = (1 - lt0(i - a)) * lt0(i - a - p) * (1 - lt0(j - b)) * lt0(j - b - q)
                if not is_zero(w):
                    r = r + w * f(i - a, j - b)
                a, b = a + p, b + q
            return r
        return I.new_arr((n, m), content)
    r = None
    for a in args:
        t = I.to_term(a)
        if r is None:
            r = t
        else:
            from .interp import mkaccum
            # an empty left operand contributes nothing
            r = mkaccum('bd', r, [], [((), ONE, t)])
    return r


@ext('numpy.cross')
def _cross(I, args, kw):
    a, b = reader(I, args[0]), reader(I, args[1])
    if a is None or b is None or a[0][-1].const != 3:
        return None
    x = [a[1]((num(k),)) for k in range(3)]
    y = [b[1]((num(k),)) for k in range(3)]
    c = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    return I.new_arr((num(3),), lambda idx: pick(idx[0], [(lambda q=q: q) for q in c]))


def _unary(g):
    def f(I, args, kw):
        v = args[0]
        return elementwise(I, g, [v])
    return f


EXT['*.abs'] = EXT['*.absolute'] = EXT['builtins.abs'] = EXT['*.Abs'] = _unary(lambda p: app('abs', (p,)))
EXT['*.sqrt'] = _unary(lambda p: app('sqrt', (p,)))
EXT['*.exp'] = _unary(lambda p: app('exp', (p,)))
EXT['*.sin'] = _unary(lambda p: app('sin', (p,)))
EXT['*.cos'] = _unary(lambda p: app('cos', (p,)))
EXT['*.tan'] = _unary(lambda p: app('tan', (p,)))
EXT['*.arctan'] = EXT['*.atan'] = _unary(lambda p: app('arctan', (p,)))
EXT['*.arccos'] = EXT['*.acos'] = _unary(lambda p: app('arccos', (p,)))
EXT['*.arcsin'] = EXT['*.asin'] = _unary(lambda p: app('arcsin', (p,)))
EXT['*.sign'] = _unary(lambda p: app('sign', (p,)))
EXT['*.log'] = _unary(lambda p: app('log', (p,)))
EXT['*.floor'] = _unary(_floor)
EXT['*.ceil'] = _unary(lambda p: -_floor(-p))
EXT['numpy.real'] = _unary(lambda p: app('real', (p,)))
EXT['numpy.square'] = _unary(sq)
EXT['numpy.negative'] = _unary(lambda p: -p)
EXT['numpy.reciprocal'] = _unary(reciprocal)
EXT['numpy.conj'] = _unary(lambda p: app('conj', (p,)))


def _bin(op):
    return lambda I, args, kw: array_binop(I, op, args[0], args[1]) if not all(isinstance(a, Poly) for a in args) else scalar_binop(I, op, args[0], args[1])


EXT['numpy.add'] = _bin(ast.Add())
EXT['numpy.subtract'] = _bin(ast.Sub())
EXT['numpy.multiply'] = _bin(ast.Mult())
EXT['numpy.divide'] = _bin(ast.Div())
EXT['*.power'] = _bin(ast.Pow())
EXT['builtins.pow'] = _bin(ast.Pow())
EXT['*.Mod'] = EXT['numpy.mod'] = EXT['numpy.remainder'] = EXT['math.fmod'] = _bin(ast.Mod())
EXT['numpy.logical_and'] = _bin(ast.BitAnd())
EXT['numpy.logical_or'] = _bin(ast.BitOr())
EXT['numpy.minimum'] = lambda I, args, kw: elementwise(I, min2, args)
EXT['numpy.maximum'] = lambda I, args, kw: elementwise(I, max2, args)


@ext('numpy.where')
def _where(I, args, kw):
    if len(args) == 3:
        return elementwise(I, lambda c, a, b: ite(I.truth(c), a, b), args)
    return None


@ext('numpy.sum', 'numpy.nansum')
def _sum(I, args, kw):
    v = args[0]
    ax = kwget(args, kw, 1, 'axis')
    if isinstance(v, Poly):
        return app('vsum', (v,)) if v.terms and any(a.kind == 'vec' for a in v.atoms()) else \
            (v if is_numeric(v) else app('sumof', (v,)))
    if isinstance(v, (Seq, Lst)):
        a = as_array(I, v)
        if a is None:
            return _bsum(I, [v], {})
        v = a
    return axis_reduce(I, v, ax, ssum)


@ext('builtins.sum')
def _bsum(I, args, kw):
    v = args[0]
    init = args[1] if len(args) > 1 else ZERO
    if isinstance(v, Arr):
        return axis_reduce(I, v, ZERO if len(v.shape) > 1 else None, ssum) if not isinstance(init, Poly) or init.const == 0 else None
    q = I.to_seq(v)
    if q is None:
        return I.typed(app('sumof', (I.to_term(v),), 'num'))
    r = init
    for s in q.segs:
        x = s.value
        if not isinstance(x, Poly):
            if s.plain:
                r = array_binop(I, ast.Add(), r, x)
                continue
            if isinstance(x, Arr) and s.loops and s.guard.const == 1:
                a = as_array(I, Seq([s]))
                if a is not None:
                    y = axis_reduce(I, a, ZERO, ssum)
                    r = array_binop(I, ast.Add(), r, y)
                    continue
            return I.opaque('sum')
        x = s.guard * x
        for v_, n in reversed(s.loops):
            x = mksum(v_, ZERO, n, x)
        r = r + x if isinstance(r, Poly) else array_binop(I, ast.Add(), r, x)
    return r


def _ext_minmax(head):
    def f(I, args, kw):
        if len(args) == 1 or 'key' in kw:
            v = args[0]
            if 'key' in kw:
                return app('ext:' + head, (I.to_term(v), I.to_term(kw['key'])), 'obj')
            if isinstance(v, (Lst, Seq, Tup)):
                q = I.to_seq(v)
                if q is not None and all(s.plain and isinstance(s.value, Poly) for s in q.segs) and q.segs:
                    r = q.segs[0].value
                    for s in q.segs[1:]:
                        r = min2(r, s.value) if head == 'min' else max2(r, s.value)
                    return r
            if isinstance(v, (Dct,)) or isinstance(v, Poly):
                return app('ext:' + head, (I.to_term(v),), 'num')
            return extremum(I, head, v)
        r = args[0]
        for x in args[1:]:
            r = elementwise(I, min2 if head == 'min' else max2, [r, x])
        return r
    return f


for _h in ('min', 'max'):
    EXT['builtins.' + _h] = _ext_minmax(_h)


def _np_minmax(head):
    def f(I, args, kw):
        ax = kwget(args, kw, 1, 'axis')
        if ax is not None and ax is not NONE:
            return None
        return extremum(I, head, args[0])
    return f


EXT['numpy.min'] = EXT['numpy.amin'] = _np_minmax('min')
EXT['numpy.max'] = EXT['numpy.amax'] = _np_minmax('max')
EXT['numpy.argmin'] = lambda I, args, kw: argmin(I, args[0])
EXT['numpy.argmax'] = lambda I, args, kw: argmin(I, args[0], 'argmax')
EXT['numpy.any'] = lambda I, args, kw: anyall(I, args[0], True) if not isinstance(args[0], Poly) else I.truth(args[0])
EXT['numpy.all'] = lambda I, args, kw: anyall(I, args[0], False) if not isinstance(args[0], Poly) else I.truth(args[0])


def _b_any(isany):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return anyall(I, v, isany)
        q = I.to_seq(v)
        if q is None:
            return ind('anyof' if isany else 'allof', (I.to_term(v),))
        r = ZERO
        for s in q.segs:
            t = I.truth(s.value)
            c = s.guard * (t if isany else b_not(t))
            for var_, n in reversed(s.loops):
                c = mkany_v(var_, n, c)
            r = b_or(r, c)
        return r if isany else b_not(r)
    return f


EXT['builtins.any'] = _b_any(True)
EXT['builtins.all'] = _b_any(False)


@ext('numpy.nonzero')
def _nonzero(I, args, kw):
    return Nonzero(args[0])


@ext('numpy.isclose', 'numpy.allclose', 'math.isclose')
def _isclose(I, args, kw):
    a, b = args[0], args[1]
    if isinstance(a, Poly) and isinstance(b, Poly):
        if is_zero(a - b):
            return ONE
        return ind('isclose', (a, b) + tuple(I.to_term(x) for k, x in sorted(kw.items())))
    return ind('isclose', (I.to_term(a), I.to_term(b)) + tuple(I.to_term(x) for k, x in sorted(kw.items())))


@ext('numpy.array_equal')
def _array_equal(I, args, kw):
    a, b = I.to_term(args[0]), I.to_term(args[1])
    if a is b:
        return ONE
    u, v = as_array(I, args[0]), as_array(I, args[1])
    if isinstance(u, Arr) and isinstance(v, Arr):
        if len(u.shape) != len(v.shape) or any(eq0(p - q).const == 0 for p, q in zip(u.shape, v.shape)):
            return ZERO
        z = tuple(ZERO for _ in u.shape)
        p, q = I.read(u, z), I.read(v, z)
        if is_numeric(p) and is_numeric(q) and eq0(p - q).const == 0:
            return ZERO
    x, y = sorted((a, b), key=lambda q: q.key)
    return ind('array_equal', (x, y))


@ext('numpy.apply_along_axis')
def _aaa(I, args, kw):
    f, axis, v = args[0], args[1], args[2]
    r = reader(I, v)
    if r is None or len(r[0]) != 2:
        return None
    shape, rd = r
    d = int(axis.const)
    o = 1 - d

    def g(idx):
        def row(k):
            ii = [None, None]
            ii[d], ii[o] = k[0], idx[0]
            return rd(tuple(ii))
        x = I.call_value(f, [I.new_arr((shape[d],), row)] + list(args[3:]), kw)
        return I.to_term(x)
    return I.new_arr((shape[o],), g)


@ext('numpy.vectorize')
def _vectorize(I, args, kw):
    return Method(args[0], 'vectorized')


@ext('types.FunctionType.__call__')
def _fcall(I, args, kw):
    return I.call_value(args[0], args[1:], kw)


@ext('numpy.append')
def _append(I, args, kw):
    a, b = args[0], args[1]
    from .interp import mkaccum
    if isinstance(a, Poly) and a.terms and any(x.kind == 'mat' for x in a.atoms()):
        return mkaccum('app', a, [], [((), ONE, I.to_term(b))])
    if isinstance(a, Poly):
        # element of an object array
        return app('append', (a, I.to_term(b)), 'vec')
    ra = reader(I, a)
    if ra is None:
        return app('append', (I.to_term(a), I.to_term(b)), 'vec')
    rb = reader(I, b) if isinstance(b, (Poly, Arr, Lst, Tup)) else ((), lambda idx, t=I.to_term(b): t)
    if rb is None or len(ra[0]) != 1:
        return app('append', (I.to_term(a), I.to_term(b)), 'vec')
    if len(rb[0]) > 1:
        return I.opaque('append')
    bb = I.new_arr(rb[0] or (ONE,), (lambda idx: rb[1](())) if not rb[0] else rb[1])
    aa = a if isinstance(a, Arr) else as_array(I, a)
    r = concat(I, [aa, bb], 0)
    I.appended = getattr(I, 'appended', {})
    I.appended[r.cell] = True
    return r


@ext('numpy.vstack')
def _vstack(I, args, kw):
    q = I.to_seq(args[0])
    if q is None or not all(s.plain for s in q.segs):
        return None
    xs = [as2(I, s.value) for s in q.segs]
    if any(x is None for x in xs):
        return None
    return concat(I, xs, 0)


@ext('numpy.hstack')
def _hstack(I, args, kw):
    q = I.to_seq(args[0])
    if q is None or not all(s.plain for s in q.segs):
        return None
    xs = [as_array(I, s.value) for s in q.segs]
    if any(x is None for x in xs):
        return None
    return concat(I, xs, 1 if xs and len(xs[0].shape) > 1 else 0)


@ext('numpy.concatenate')
def _concat(I, args, kw):
    q = I.to_seq(args[0])
    if q is None or not all(s.plain for s in q.segs):
        return None
    xs = [as_array(I, s.value) for s in q.segs]
    if any(x is None for x in xs):
        return None
    ax = kwget(args, kw, 1, 'axis')
    return concat(I, xs, int(ax.const) if ax is not None else 0)


@ext('numpy.block')
def _block(I, args, kw):
    r = block(I, args[0])
    return r if r is not None else app('block', (I.to_term(args[0]),), 'mat')


@ext('numpy.diag')
def _diag(I, args, kw):
    r = reader(I, args[0])
    if r is None:
        return None
    shape, f = r
    if len(shape) == 2:
        return I.new_arr(shape[:1], lambda idx: f((idx[0], idx[0])))
    if len(shape) == 1:
        return I.new_arr((shape[0], shape[0]), lambda idx: eq0(idx[0] - idx[1]) * f((idx[0],)))


@ext('numpy.transpose')
def _transpose(I, args, kw):
    a = args[0]
    return transpose(I, a) if isinstance(a, Arr) else None


@ext('numpy.reshape')
def _np_reshape(I, args, kw):
    s = shape_of(I, args[1])
    return reshape(I, args[0], s) if s is not None else None


@ext('numpy.copyto')
def _copyto(I, args, kw):
    I.store_value(args[0], args[1])
    return NONE


@ext('numpy.fill_diagonal')
def _fd(I, args, kw):
    a = args[0]
    f = I.content(a)
    v = args[1]
    if isinstance(v, Poly):
        I.store_view(a, lambda idx: ite(eq0(idx[0] - idx[1]), v, f(idx)))
        return NONE


@ext('numpy.diff')
def _diff(I, args, kw):
    r = reader(I, args[0])
    if r is None:
        return None
    shape, f = r
    ax = kw.get('axis', args[2] if len(args) > 2 else num(-1))
    d = int(ax.const)
    d = d + len(shape) if d < 0 else d
    ns = list(shape)
    ns[d] = ns[d] - 1
    return I.new_arr(tuple(ns), lambda idx: f(idx[:d] + (idx[d] + 1,) + idx[d + 1:]) - f(idx))


@ext('numpy.cumsum')
def _cumsum(I, args, kw):
    r = reader(I, args[0])
    if r is None or len(r[0]) != 1:
        return None
    shape, f = r
    return I.new_arr(shape, lambda idx: ssum(idx[0] + 1, lambda k: f((k,))))


@ext('numpy.tile', 'numpy.repeat', 'numpy.broadcast_to')
def _none(I, args, kw):
    return None


@ext('numpy.broadcast_to')
def _bto(I, args, kw):
    s = shape_of(I, args[1])
    if s is None:
        return None
    f = broadcast_reader(I, args[0], s)
    return I.new_arr(s, f) if f is not None else None


@ext('numpy.mean')
def _mean(I, args, kw):
    if kw or len(args) > 1:
        return None
    r = reader(I, args[0])
    if r is None:
        return None
    n = ONE
    for s in r[0]:
        n = n * s
    return div(axis_reduce(I, args[0], None, ssum), n)


@ext('numpy.float64', 'builtins.float', 'numpy.double')
def _float(I, args, kw):
    v = args[0] if args else ZERO
    if isinstance(v, Poly):
        w = _number_in(v)
        if w is not None:
            return w
        if kind_of(v) == 'str' or not is_numeric(v):
            return app('float', (v,))
        return v
    if isinstance(v, Arr) and not v.shape:
        return I.read(v, ())
    return None


@ext('builtins.complex')
def _complex(I, args, kw):
    if len(args) == 2 and all(isinstance(a, Poly) for a in args):
        return args[0] + args[1] * P(Atom('J', ()))


@ext('builtins.int', 'numpy.int64', 'builtins.round')
def _int(I, args, kw):
    v = I.to_term(args[0])
    if v.isint:
        return v
    c = v.const
    if c is not None:
        return num(int(c))
    w = _number_in(v)
    if w is not None and w.isint:
        return w
    return app('int', (v,), 'int')


def _number_in(v):
    """the number a known string denotes; 'sym:x' stands for an arbitrary number x"""
    a = v.atom
    if a is None or a.head != 'str':
        return None
    if a.args[0].startswith('sym:'):
        return var(a.args[0][4:])
    try:
        return topoly(Fraction(a.args[0].strip()))
    except ValueError:
        return None


# case files: the contents are given by the scenario

@ext('builtins.open')
def _open(I, args, kw):
    return SymObj(app('file', (I.to_term(args[0]),), 'obj'))


@ext('json.load', 'json.loads')
def _json(I, args, kw):
    return getattr(I, 'case', None)


# igraph, as a specification in Python given meaning by the same abstract semantics

IGRAPH = '''
class Vertex:
    def __init__(self, index, attrs):
        self.index = index
        self.attrs = attrs

    def __getitem__(self, k):
        return self.attrs[k]

    def attributes(self):
        return self.attrs


class Edge:
    def __init__(self, index, source, target, attrs, graph):
        self.index = index
        self.source = source
        self.target = target
        self.tuple = (source, target)
        self.attrs = attrs
        self.source_vertex = graph.vs.vertices[source]
        self.target_vertex = graph.vs.vertices[target]

    def __getitem__(self, k):
        return self.attrs[k]

    def attributes(self):
        return self.attrs


class Seq:
    def __init__(self, vertices):
        self.vertices = vertices

    def find(self, name):
        return [v for v in self.vertices if v.attrs["name"] == name][0]

    def __getitem__(self, k):
        if isinstance(k, str):
            named = [v for v in self.vertices if "name" in v.attrs and v.attrs["name"] == k]
            if len(named) > 0:
                return named[0]
            return [v.attrs[k] for v in self.vertices]
        return self.vertices[k]

    def __iter__(self):
        return self.vertices

    def __call__(self, **kw):
        out = self.vertices
        for k in kw:
            if k.endswith("_eq"):
                out = [v for v in out if v.attrs[k[:-3]] == kw[k]]
            else:
                out = [v for v in out if v.attrs[k] == kw[k]]
        return Seq(out)

    def select(self, **kw):
        return self(**kw)


class Graph:
    def __init__(self, directed=False):
        self.vs = Seq([])
        self.es = Seq([])

    def add_vertex(self, name=None, **kw):
        attrs = {"name": name}
        for k in kw:
            attrs[k] = kw[k]
        self.vs.vertices.append(Vertex(len(self.vs.vertices), attrs))

    def add_edge(self, source, target, **kw):
        a = self.vs[source].index
        b = self.vs[target].index
        self.es.vertices.append(Edge(len(self.es.vertices), a, b, kw, self))

    def vcount(self):
        return len(self.vs.vertices)

    def ecount(self):
        return len(self.es.vertices)
'''


@ext('igraph.Graph')
def _graph(I, args, kw):
    from .framework import reference
    return I.call_value(reference(I, IGRAPH, 'Graph'), args, kw)


@ext('builtins.bool')
def _bool(I, args, kw):
    return I.truth(args[0]) if args else ZERO


@ext('builtins.str')
def _str(I, args, kw):
    v = I.to_term(args[0])
    if v.atom is not None and v.atom.head == 'str':
        return v
    if v.const is not None and v.const.denominator == 1:
        return string(str(int(v.const)))
    if kind_of(v) == 'str':
        return v
    return app('strof', (v,), 'str')


# sympy

@ext('sympy.symbols', 'sympy.Symbol')
def _symbols(I, args, kw):
    s = I.to_term(args[0]).atom
    if s is None or s.head != 'str':
        return None
    names = [x for x in s.args[0].replace(',', ' ').split() if x]
    vs = [var('sym:' + n) for n in names]
    return vs[0] if len(vs) == 1 else Tup(vs)


@ext('sympy.Function')
def _spfun(I, args, kw):
    return app('spfun', (I.to_term(args[0]),), 'obj')


@ext('sympy.Integral', 'sympy.integrate')
def _integral(I, args, kw):
    f = args[0]
    lim = args[1]
    if isinstance(lim, Tup) and len(lim.vals) == 3 and isinstance(f, Poly):
        x, a, b = [I.to_term(v) for v in lim.vals]
        return mkintegral(f, x, a, b)
    return None


def mkintegral(f, x, a, b):
    at = x.atom
    if at is None:
        return app('integral?', (f, x, a, b))
    if at not in f.fv:
        return f * (b - a)
    # linear: factor out what does not depend on x
    r = ZERO
    for c, outer, inner in linear_split(f, lambda q: at in q.fv):
        om = mkpoly({outer: c})
        if not inner:
            r = r + om * (b - a)
        else:
            r = r + om * app('integral', (mklam([at], mkpoly({inner: Fraction(1)})), a, b))
    return r


@smart('integral')
def _s_integral(lam, a, b, kind='num'):
    if a is b:
        return ZERO
    return raw_app('integral', (lam, a, b))


@ext('sympy.lambdify')
def _lambdify(I, args, kw):
    t, e = args[0], args[1]
    ts = [I.to_term(x) for x in (t.vals if isinstance(t, Tup) else [s.value for s in I.to_seq(t).segs] if isinstance(t, Lst) else [t])]
    if any(x.atom is None for x in ts) or not isinstance(e, Poly):
        return I.opaque('lambdify', (), 'fun')
    return fun([x.atom for x in ts], e)


@ext('sympy.Piecewise')
def _piecewise(I, args, kw):
    r = app('nan', ())
    for a in reversed(args):
        if not isinstance(a, Tup) or len(a.vals) != 2:
            return None
        v, c = a.vals
        r = ite(I.truth(c), I.to_term(v), r)
    return r


@ext('sympy.And')
def _and(I, args, kw):
    r = ONE
    for a in args:
        r = b_and(r, I.truth(a))
    return r


@ext('sympy.Or')
def _or(I, args, kw):
    r = ZERO
    for a in args:
        r = b_or(r, I.truth(a))
    return r


@ext('sympy.Heaviside')
def _heav(I, args, kw):
    return None


# builtins

@ext('builtins.len')
def _len(I, args, kw):
    return I.length(args[0])


def type_name(I, v):
    if isinstance(v, Arr):
        return Ext('numpy.ndarray')
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, SymObj) and v.cls is not None:
        return v.cls
    if isinstance(v, (Lst, Seq)):
        return Ext('builtins.list')
    if isinstance(v, Dct):
        return Ext('builtins.dict')
    if isinstance(v, Tup):
        return Ext('builtins.tuple')
    if isinstance(v, (Fn,)):
        return Ext('builtins.function')
    if isinstance(v, Bound):
        return Ext('builtins.method')
    if isinstance(v, Poly):
        if v is NONE:
            return Ext('builtins.NoneType')
        a = v.atom
        if a is not None and a.head in ('typedvalue',):
            return None
        if v.const is not None:
            return Ext('builtins.int') if v.const.denominator == 1 else Ext('builtins.float')
        ks = {x.kind for x in v.atoms() if x.head not in IDEM}
        if ks == {'fun'}:
            return Ext('builtins.function')
        if ks == {'str'}:
            return Ext('builtins.str')
        if v.isint:
            return Ext('builtins.int')
        if ks and ks <= {'num', 'int'}:
            return Ext('builtins.float')
    return None


@ext('builtins.type')
def _type(I, args, kw):
    v = args[0]
    if type(v) is FloatConst:
        return type_name(I, num(Fraction(1, 2)))
    if isinstance(v, IteV):
        return IteV(v.c, _type(I, [v.a], {}), _type(I, [v.b], {}))
    if isinstance(v, Poly):
        sh = shannon_atoms((v,))
        if sh and not is_numeric(v):
            a = sh[0]
            return IteV(P(a), _type(I, [cofactor(v, a, 1)], {}), _type(I, [cofactor(v, a, 0)], {}))
    t = type_name(I, v)
    if t is not None:
        return t
    return app('typeof', (I.to_term(v),), 'obj')


@ext('builtins.isinstance')
def _isinstance(I, args, kw):
    v, c = args
    cs = list(c.vals) if isinstance(c, Tup) else [c]
    if isinstance(v, IteV):
        return ite(v.c, _isinstance(I, [v.a, c], {}), _isinstance(I, [v.b, c], {}))
    t = type_name(I, num(Fraction(1, 2)) if type(v) is FloatConst else v)
    v = plain_value(v)
    r = ZERO
    for x in cs:
        if t is None:
            r = b_or(r, ind('isinstance', (I.to_term(v), I.to_term(x))))
        elif isinstance(t, Cls) and isinstance(x, Cls):
            r = b_or(r, ONE if x.name in t.names() else ZERO)
        else:
            n = getattr(x, 'name', '').split('.')[-1]
            tn = t.name.split('.')[-1]
            ok = n == tn or (n == 'FunctionType' and tn == 'function') or (n in ('float64', 'float', 'floating') and tn == 'float') or n == 'object' or (n in ('integer', 'Integral') and tn == 'int')
            r = b_or(r, ONE if ok else ZERO)
    return r


@ext('builtins.enumerate')
def _enumerate(I, args, kw):
    start = kwget(args, kw, 1, 'start', ZERO)
    q = I.to_seq(args[0])
    if q is None:
        return None
    segs = []
    off = start
    for s in q.segs:
        if s.plain:
            segs.append(Seg((), ONE, Tup([off, s.value])))
            off = off + 1
        elif len(s.loops) == 1 and s.guard.const == 1:
            segs.append(Seg(s.loops, ONE, Tup([off + P(s.loops[0][0]), s.value])))
            off = off + s.loops[0][1]
        else:
            # position = number of earlier elements
            pos = count_before(s)
            if pos is None:
                return None
            segs.append(Seg(s.loops, s.guard, Tup([off + pos, s.value])))
            tot = s.guard
            for v, n in reversed(s.loops):
                tot = mksum(v, ZERO, n, tot)
            off = off + tot
    return Seq(segs)


def count_before(s):
    """number of elements of the segment produced before the current loop assignment"""
    if not s.loops:
        return ZERO
    r = ZERO
    vs = [v for v, _ in s.loops]
    for d in range(len(vs)):
        # same outer indices, smaller d-th, any inner
        ws = [fresh('q') for _ in vs[d:]]
        m = {v: P(w) for v, w in zip(vs[d:], ws)}
        g = subst(s.guard, m)
        for k in range(len(vs) - 1, d, -1):
            g = mksum(ws[k - d], ZERO, subst(s.loops[k][1], m), g)
        r = r + mksum(ws[0], ZERO, P(vs[d]), g)
    return r


@ext('builtins.zip')
def _zip(I, args, kw):
    qs = [I.to_seq(a) for a in args]
    if any(q is None for q in qs):
        return None
    if all(all(s.plain for s in q.segs) for q in qs):
        n = min(len(q.segs) for q in qs)
        return Seq([Seg((), ONE, Tup([q.segs[k].value for q in qs])) for k in range(n)])
    # some are plain lists: index the symbolic ones
    if all(len(q.segs) == 1 and len(q.segs[0].loops) == 1 and q.segs[0].guard.const == 1 for q in qs):
        v = fresh('k')
        n = qs[0].segs[0].loops[0][1]
        vals = []
        for q in qs:
            (w, m), x = q.segs[0].loops[0], q.segs[0].value
            if m is not n and not is_zero(m - n):
                n = min2(n, m) if False else n
                I.zips = getattr(I, 'zips', [])
                I.zips.append((n, m))
            vals.append(I.subst_value(x, {w: P(v)}))
        return Seq([Seg(((v, n),), ONE, Tup(vals))])
    # same segment structure (lists built by the same loops)
    k = len(qs[0].segs)
    if all(len(q.segs) == k for q in qs):
        out = []
        for ss in zip(*[q.segs for q in qs]):
            s0 = ss[0]
            vals = [s0.value]
            for s in ss[1:]:
                if len(s.loops) != len(s0.loops):
                    return None
                m = {b[0]: P(a[0]) for a, b in zip(s0.loops, s.loops)}
                if any(subst(b[1], m) is not a[1] for a, b in zip(s0.loops, s.loops)) or subst(s.guard, m) is not s0.guard:
                    return None
                vals.append(I.subst_value(s.value, m))
            out.append(Seg(s0.loops, s0.guard, Tup(vals)))
        return Seq(out)
    return None


def sorted_plain(I, v, key, reverse=None):
    """the elements of a list of known length sorted by known keys"""
    q = I.to_seq(v)
    if q is None or not all(s.plain for s in q.segs):
        return None
    vals = [s.value for s in q.segs]
    keys = []
    for x in vals:
        k = x if key is None or key is NONE else I.call_value(key, [x], {})
        if isinstance(k, Poly):
            k = resimp(k)
        if not isinstance(k, Poly) or k.const is None:
            if len(vals) > 1:
                return None
            k = ZERO
        keys.append(k.const)
    rev = False
    if reverse is not None:
        r = I.truth(reverse)
        if r.const is None:
            return None
        rev = bool(r.const)
    return [vals[i] for i in sorted(range(len(vals)), key=lambda i: keys[i], reverse=rev)]


@ext('builtins.sorted')
def _sorted(I, args, kw):
    v = args[0]
    key = kw.get('key')
    q = sorted_plain(I, v, key, kw.get('reverse'))
    if q is not None:
        return I.new_list([Seg((), ONE, x) for x in q])
    t = I.to_term(v)
    kt = NONE
    if key is not None:
        kt = I.to_fun(key) if isinstance(key, (Fn, Bound)) else I.to_term(key)
    rev = I.truth(kw['reverse']) if 'reverse' in kw else ZERO
    return I.typed(app('sorted', (t, kt, rev), 'obj'))


@ext('builtins.reversed')
def _reversed(I, args, kw):
    v = args[0]
    if isinstance(v, Rng) and v.step.const == 1:
        return Rng(v.hi - 1, v.lo - 1, num(-1))
    q = I.to_seq(v)
    if q is not None and all(s.plain for s in q.segs):
        return Seq(list(reversed(q.segs)))
    return I.typed(app('reversed', (I.to_term(v),), 'obj'))


@ext('builtins.list', 'builtins.tuple')
def _list(I, args, kw):
    if not args:
        return I.new_list([])
    v = args[0]
    if isinstance(v, Poly):
        a = v.atom
        if a is not None and a.head in ('keys', 'values', 'items'):
            q = I.to_seq(v)
            if q is not None:
                return I.new_list(q.segs)
    q = I.to_seq(v)
    if q is None:
        return app('list', (I.to_term(v),), 'obj')
    return I.new_list(q.segs)


@ext('builtins.dict')
def _dict(I, args, kw):
    ents = []
    if args:
        v = args[0]
        if isinstance(v, Dct):
            ents = list(I.get(('d', v.id)))
        else:
            q = I.to_seq(v)
            if q is None:
                return None
            for s in q.segs:
                kv = I.unpack(s.value, 2)
                ents.append((s.loops, s.guard, kv[0], kv[1]))
    for k, v in kw.items():
        ents.append(((), ONE, string(k), v))
    return I.new_dict(ents)


@ext('builtins.dict.fromkeys')
def _fromkeys(I, args, kw):
    q = I.to_seq(args[0])
    if q is None:
        return None
    v = args[1] if len(args) > 1 else NONE
    known = []
    for x in q.segs:
        if not x.plain:
            break
        known.append((x.value, [I.value_eq(x.value, y).const for y, _ in known]))
    else:
        if all(c is not None for _, cs in known for c in cs):
            return I.new_dict([((), ONE, x, v) for x, cs in known if 1 not in cs])
    # an ordered set of the elements
    return app('ordset', (I.to_term(Seq(q.segs)),), 'obj')


@ext('builtins.set', 'builtins.frozenset')
def _set(I, args, kw):
    if not args:
        return app('hashset', (), 'obj')
    return app('hashset', (I.to_term(args[0]),), 'obj')


@ext('builtins.map')
def _map(I, args, kw):
    q = I.to_seq(args[1]) if len(args) == 2 else None
    if q is None:
        return None
    return Seq([Seg(s.loops, s.guard, I.call_value(args[0], [s.value], {})) for s in q.segs])


@ext('builtins.filter')
def _filter(I, args, kw):
    q = I.to_seq(args[1])
    if q is None:
        return None
    return Seq([Seg(s.loops, s.guard * I.truth(I.call_value(args[0], [s.value], {})), s.value) for s in q.segs])


@ext('builtins.next')
def _next(I, args, kw):
    v = args[0]
    q = I.to_seq(v)
    if q is None or not q.segs:
        return None
    r = I.first_of(q.segs)
    if len(args) > 1:
        have = ZERO
        for s in q.segs:
            c = s.guard
            for v_, n in reversed(s.loops):
                c = mkany_v(v_, n, c)
            have = b_or(have, c)
        return I.join(have, r, args[1])
    return r


@ext('builtins.iter')
def _iter(I, args, kw):
    q = I.to_seq(args[0])
    return q


@ext('builtins.slice')
def _slice(I, args, kw):
    a = [None if x is NONE else x for x in args]
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@ext('builtins.getattr')
def _getattr(I, args, kw):
    s = I.to_term(args[1]).atom
    if s is not None and s.head == 'str':
        return I.getattr(args[0], s.args[0])


@ext('builtins.hasattr')
def _hasattr(I, args, kw):
    return ind('hasattr', (I.to_term(args[0]), I.to_term(args[1])))


@ext('builtins.setattr')
def _setattr(I, args, kw):
    s = I.to_term(args[1]).atom
    if s is not None and s.head == 'str':
        I.setattr(args[0], s.args[0], args[2])
        return NONE


@ext('builtins.callable')
def _callable(I, args, kw):
    return ONE if isinstance(args[0], (Fn, Bound, Ext, Cls)) else ind('callable', (I.to_term(args[0]),))


@ext('builtins.print', 'warnings.warn')
def _print(I, args, kw):
    return NONE


@ext('copy.deepcopy')
def _deepcopy(I, args, kw):
    return deep_copy(I, args[0], {})


@ext('copy.copy')
def _copy(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        id = I.new_id()
        o = Obj(id, v.cls)
        I.objnames[id] = '%s.copy' % I.objnames.get(v.id, v.id)
        for k in set(I.state.d) | set(I.base):
            if k[0] == 'a' and k[1] == v.id:
                I.put(('a', id, k[2]), I.get(k))
        return o
    if isinstance(v, Arr):
        return I.new_arr(v.shape, I.content(v), v.dtype)
    if isinstance(v, (Lst, Dct)):
        return call_method(I, v, 'copy', [], {})
    return app('copied', (I.to_term(v),), 'obj')


def deep_copy(I, v, memo):
    if isinstance(v, Obj):
        if ('o', v.id) in memo:
            return memo[('o', v.id)]
        id = I.new_id()
        o = Obj(id, v.cls)
        memo[('o', v.id)] = o
        I.objnames[id] = '%s.copy' % I.objnames.get(v.id, v.id)
        keys = sorted({k for k in list(I.state.d) + list(I.base) if k[0] == 'a' and k[1] == v.id}, key=str)
        for k in keys:
            I.put(('a', id, k[2]), deep_copy(I, I.get(k), memo))
        return o
    if isinstance(v, Arr):
        if ('c', v.cell) not in memo:
            id = I.new_id()
            I.put(('c', id), I.get(('c', v.cell)))
            memo[('c', v.cell)] = id
        return Arr(memo[('c', v.cell)], v.axes, v.shape, v.dtype)
    if isinstance(v, Lst):
        if ('l', v.id) not in memo:
            l = I.new_list([])
            memo[('l', v.id)] = l
            segs = I.get(('l', v.id))
            I.put(('l', l.id), tuple(Seg(s.loops, s.guard, deep_copy(I, s.value, memo)) if isinstance(s, Seg) else s for s in segs))
        return memo[('l', v.id)]
    if isinstance(v, Dct):
        if ('d', v.id) not in memo:
            d = I.new_dict([])
            memo[('d', v.id)] = d
            I.put(('d', d.id), tuple((e[0], e[1], deep_copy(I, e[2], memo), deep_copy(I, e[3], memo)) if isinstance(e, tuple) else e for e in I.get(('d', v.id))))
        return memo[('d', v.id)]
    if isinstance(v, Tup):
        return Tup([deep_copy(I, x, memo) for x in v.vals])
    if isinstance(v, IteV):
        return IteV(v.c, deep_copy(I, v.a, memo), deep_copy(I, v.b, memo))
    return v


# ---------------------------------------------------------------- methods

def call_method(I, obj, name, args, kw):
    if name == 'vectorized':
        return elementwise(I, lambda *xs: I.to_term(I.call_value(obj, list(xs), {})), list(args))
    if isinstance(obj, IteV):
        return I.join(obj.c, call_method(I, obj.a, name, args, kw), call_method(I, obj.b, name, args, kw))
    if isinstance(obj, Arr):
        return arr_method(I, obj, name, args, kw)
    if isinstance(obj, (Lst, Seq, Rng)):
        r = list_method(I, obj, name, args, kw)
        if r is not None:
            return r
    if isinstance(obj, Tup):
        if name in ('index', 'count'):
            return list_method(I, Seq(I.to_seq(obj).segs), name, args, kw)
    if isinstance(obj, Dct):
        r = dict_method(I, obj, name, args, kw)
        if r is not None:
            return r
    if isinstance(obj, (Poly, SymObj)):
        r = poly_method(I, I.to_term(obj), name, args, kw)
        if r is not None:
            return r
    if isinstance(obj, (Cls, Ext)):
        return call_ext(I, obj.name + '.' + name, args, kw)
    I.taint('method ' + name)
    return I.opaque('method:' + name)


def arr_method(I, a, name, args, kw):
    if name == 'dot':
        return matmul(I, a, args[0], True)
    if name in ('copy', 'astype', 'conj', 'conjugate', 'round'):
        d = a.dtype
        if name == 'astype':
            d = dtype_of(I, args[0]) if args else d
        return I.new_arr(a.shape, I.content(a), d)
    if name == 'sum':
        return axis_reduce(I, a, kwget(args, kw, 0, 'axis'), ssum)
    if name == 'reshape':
        s = shape_of(I, args[0]) if len(args) == 1 else tuple(args)
        if s is None:
            I.taint('reshape')
            return I.opaque('reshape')
        return reshape(I, a, s)
    if name == 'fill':
        v = args[0]
        f = broadcast_reader(I, v, a.shape, a.dtype)
        I.store_view(a, f)
        return NONE
    if name in ('flatten', 'ravel'):
        n = ONE
        for s in a.shape:
            n = n * s
        return reshape(I, a, (n,))
    if name in ('min', 'max'):
        return extremum(I, name, a)
    if name in ('argmin', 'argmax'):
        return argmin(I, a, name)
    if name in ('any', 'all'):
        return anyall(I, a, name == 'any')
    if name == 'transpose' and not args:
        return transpose(I, a)
    if name == 'item' and not args:
        return I.read(a, tuple(ZERO for _ in a.shape))
    if name == 'squeeze':
        keep = tuple(s for s in a.shape if s.const != 1)
        return reshape(I, a, keep) if keep else I.read(a, tuple(ZERO for _ in a.shape))
    if name == 'tolist':
        q = I.to_seq(a)
        return I.new_list(q.segs)
    if name == 'nonzero':
        return Nonzero(a)
    if name == 'mean':
        return _mean(I, [a], {})
    if name == 'cumsum':
        return _cumsum(I, [a], {})
    I.taint('array method ' + name)
    return I.opaque('array method ' + name)


def list_method(I, l, name, args, kw):
    if isinstance(l, Lst):
        if name == 'append':
            I.list_append(l, args[0])
            return NONE
        if name == 'extend':
            I.list_extend(l, args[0])
            return NONE
        if name == 'insert':
            segs = I.get(('l', l.id))
            if isinstance(args[0], Poly) and args[0].const == 0:
                I.put(('l', l.id), (Seg((), ONE, args[1]),) + tuple(segs))
                return NONE
        if name == 'pop' and (not args or (isinstance(args[0], Poly) and args[0].const in (-1, 0))):
            segs = I.get(('l', l.id))
            k = 0 if args and args[0].const == 0 else -1
            if segs and isinstance(segs[k], Seg) and segs[k].plain:
                I.put(('l', l.id), tuple(segs[1:] if k == 0 else segs[:-1]))
                return segs[k].value
        if name == 'clear':
            I.put(('l', l.id), ())
            return NONE
    if name == 'copy':
        return I.new_list(I.to_seq(l).segs)
    if name == 'index':
        q = I.to_seq(l)
        if q is None:
            return None
        pos = ZERO
        r = None
        out = []
        for s in q.segs:
            if isinstance(s, Seg) and s.plain:
                out.append((I.value_eq(s.value, args[0]), pos))
                pos = pos + 1
            elif len(s.loops) == 1 and s.guard.const == 1 and len(q.segs) == 1:
                v, n = s.loops[0]
                return mkfirst(v, n, I.value_eq(s.value, args[0]), P(v))
            else:
                return None
        if not out:
            return None
        r = out[-1][1]
        for c, p in reversed(out[:-1]):
            r = ite(c, p, r)
        return r
    if name == 'count':
        q = I.to_seq(l)
        r = ZERO
        for s in q.segs:
            x = s.guard * I.value_eq(s.value, args[0])
            for v, n in reversed(s.loops):
                x = mksum(v, ZERO, n, x)
            r = r + x
        return r
    if name == 'sort' and isinstance(l, Lst):
        v = _sorted(I, [l], kw)
        q = I.to_seq(v)
        if q is not None:
            I.put(('l', l.id), tuple(q.segs))
            return NONE
    return None


def dict_method(I, d, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return I.dict_view(d, name)
    if name == 'get':
        dflt = args[1] if len(args) > 1 else NONE
        h = I.dict_has(d, args[0])
        if h.const == 0:
            return dflt
        v = I.dict_get(d, args[0])
        return I.join(h, v, dflt)
    if name == 'update':
        if args and isinstance(args[0], Dct):
            for e in I.get(('d', args[0].id)):
                if not isinstance(e, tuple):
                    return None
                if not e[0] and e[1].const == 1:
                    I.setitem(d, e[2], e[3])
                else:
                    I.put(('d', d.id), I.get(('d', d.id)) + (e,))
        for k, v in kw.items():
            I.setitem(d, string(k), v)
        return NONE
    if name == 'setdefault':
        h = I.dict_has(d, args[0])
        if h.const == 1:
            return I.dict_get(d, args[0])
        dflt = args[1] if len(args) > 1 else NONE
        if h.const == 0:
            I.setitem(d, args[0], dflt)
            return dflt
        return None
    if name == 'copy':
        return I.new_dict(I.get(('d', d.id)))
    if name == 'clear':
        I.put(('d', d.id), ())
        return NONE
    return None


def poly_method(I, t, name, args, kw):
    if name == 'subs':
        if len(args) == 2:
            a = I.to_term(args[0]).atom
            if a is not None:
                return subst(t, {a: I.to_term(args[1])})
        if len(args) == 1 and isinstance(args[0], Dct):
            m = {}
            for e in I.get(('d', args[0].id)):
                a = I.to_term(e[2]).atom if isinstance(e, tuple) else None
                if a is None:
                    return None
                m[a] = I.to_term(e[3])
            # sympy substitutes one after the other; identical for symbols not reintroduced
            for a, v in m.items():
                if any(b in v.fv for b in m):
                    return I.opaque('subs', (t,), 'num')
            return subst(t, m)
        if len(args) == 1 and isinstance(args[0], (Lst, Tup)):
            r = t
            for s in I.to_seq(args[0]).segs:
                kv = I.unpack(s.value, 2)
                a = I.to_term(kv[0]).atom
                r = subst(r, {a: I.to_term(kv[1])})
            return r
        return None
    if name == 'item' and not args:
        return t
    if name in ('real',):
        return app('real', (t,))
    if name in ('keys', 'values', 'items') and not args:
        return P(Atom(name, (t,), 'obj'))
    if name == 'get':
        k = I.to_term(args[0])
        dflt = args[1] if len(args) > 1 else NONE
        return I.join(ind('in', (k, t)), I.getitem(t, k), dflt)
    if name == 'copy':
        return app('copied', (t,), 'obj')
    if name == 'index':
        x = I.to_term(args[0])
        q = I.to_seq(t)
        if q is not None:
            r = list_method(I, q, 'index', args, kw)
            if r is not None:
                return r
        return app('indexof', (t, x), 'int')
    a = t.atom
    if a is not None and a.head == 'str' and all(isinstance(x, Poly) and x.atom is not None and x.atom.head == 'str' for x in args):
        s = a.args[0]
        xs = [x.atom.args[0] for x in args]
        if name in ('lower', 'upper', 'strip'):
            return string(getattr(s, name)(*xs))
        if name in ('startswith', 'endswith'):
            return ONE if getattr(s, name)(*xs) else ZERO
        if name == 'split':
            return I.new_list([Seg((), ONE, string(w)) for w in s.split(*xs)])
    if name in ('append', 'extend', 'insert', 'update', 'pop', 'sort', 'remove', 'clear', 'setdefault', 'fill', 'add'):
        I.log('mutate:' + name, [t] + [I.to_term(x) for x in args])
        return app('ret:' + name, tuple([t] + [I.to_term(x) for x in args]), 'obj')
    if name in ('lower', 'upper', 'strip', 'replace', 'join', 'format'):
        return app('str.' + name, tuple([t] + [I.to_term(x) for x in args]), 'str')
    if name in ('startswith', 'endswith', 'isdigit'):
        return ind('str.' + name, tuple([t] + [I.to_term(x) for x in args]))
    return I.call_unknown_method(t, name, args, kw)
