"""Symbolic transmission-line scenarios and the equations they must satisfy."""
from engine.framework import *


def rd(nm, *idx, kind='num'):
    return app('rd', (P(Atom('var', (nm,), 'obj')),) + tuple(topoly(i) for i in idx), kind)


def ssum(f, n):
    a = fresh('s')
    with facts(P(a), n - 1 - P(a)):
        b = f(P(a))
    return mksum(a, ZERO, n, b)


def fcall(nm, *idx):
    f = rd(nm, *idx, kind='fun')
    return lambda t: call(f, [t])


def cell_of(a):
    return ('c', a.cell)


def havoc(I, obj, attr, name=None, kind='num', content=None):
    """give the array attribute arbitrary contents (shape kept)"""
    a = I.getattr(obj, attr)
    if isinstance(a, IteV):
        a = npmodel.as_array(I, a)
        if a is not None:
            I.setattr(obj, attr, a)
    if not isinstance(a, Arr):
        return None
    b = P(Atom('var', (name or attr,), 'obj'))
    I.put(cell_of(a), Content(content or (lambda idx: app('rd', (b,) + tuple(idx), kind))))
    return a


def has_attr(I, obj, attr):
    return I.get(('a', obj.id, attr)) is not UNDEF


NX, N = ivar('nx'), ivar('N')
DT, T = nvar('dt'), nvar('time')
POSITIVE.add(DT.atom)
SMALL_DT = 10 ** 9 - DT       # time steps are below the 1e10 the classes start from


def make_mtl(ctx, I, tag='', n=None, nx=None, **kw):
    n = N if n is None else n
    nx = NX if nx is None else nx
    c = ctx.cls(I, 'mtl', 'MTL')
    args = dict(l=symarr(I, 'Lm' + tag, (n, n)), c=symarr(I, 'Cm' + tag, (n, n)), r=symarr(I, 'Rm' + tag, (n, n)), g=symarr(I, 'Gm' + tag, (n, n)),
                length=nvar('len' + tag), ndiv=nx, Zs=symarr(I, 'Zs' + tag, (n,)), Zl=symarr(I, 'Zl' + tag, (n,)), name=string('line' + tag))
    args.update(kw)
    args = {k: v for k, v in args.items() if v is not None}
    pos = [args.pop('l'), args.pop('c')]
    return I.call_value(c, pos, args)


def set_geometry(I, line, tag=''):
    """a non-uniform line: arbitrary node positions, arbitrary cell lengths"""
    dn = lambda k: rd('dn' + tag, k)
    a = I.getattr(line, 'du_norm')
    if isinstance(a, Arr) and len(a.shape) == 3:
        I.put(cell_of(a), Content(lambda idx: dn(idx[0]) * eq0(idx[1] - idx[2])))
    havoc(I, line, 'u', 'u' + tag)
    havoc(I, line, 'du', 'du' + tag)
    return dn


def set_pul(I, line):
    for x in ('l', 'c', 'r', 'g'):
        havoc(I, line, x)


def set_state(I, line):
    havoc(I, line, 'v')
    havoc(I, line, 'i')
    for x in ('v_sources', 'e_T', 'e_L'):
        if has_attr(I, line, x):
            havoc(I, line, x, kind='fun')


class Eq:
    """The update equations, with everything the line is given left symbolic."""

    def __init__(self, n, nx, dn, zs=None, zl=None, extra=None):
        self.n, self.nx, self.dn = n, nx, dn
        self.zs = zs or (lambda a: rd('Zs', a))
        self.zl = zl or (lambda a: rd('Zl', a))
        self.C = lambda k, a, b: rd('c', k, a, b)
        self.G = lambda k, a, b: rd('g', k, a, b)
        self.L = lambda k, a, b: rd('l', k, a, b)
        self.R = lambda k, a, b: rd('r', k, a, b)
        self.v = lambda a, k: rd('v', a, k)
        self.i = lambda a, k: rd('i', a, k)
        self.vs = lambda a, k, t: fcall('v_sources', a, k)(t)
        self.eT = lambda a, k, t: fcall('e_T', a, k)(t)
        self.eL = lambda a, k, t: fcall('e_L', a, k)(t)
        self.dt, self.T = DT, T
        # series dispersive elements: d, e, sum of q1, sum of q2 (per cell, row, column), convolution term (cell,row)
        self.D = self.E = self.Q1 = self.Q2 = lambda k, a, b: ZERO
        self.Q3PHI = lambda k, a: ZERO

    def matvec(self, M, x, a):
        return ssum(lambda b: M(a, b) * x(b), self.n)

    def v_inner(self, c, k):
        h = (self.dn(k - 1) + self.dn(k)) / 2
        dt, T = self.dt, self.T
        A = lambda a, b: self.C(k, a, b) / dt + self.G(k, a, b) / 2
        B = lambda a, b: self.C(k, a, b) / dt - self.G(k, a, b) / 2
        inv = lambda a, b: matinv(self.n, A, a, b)
        w = lambda a: ssum(lambda b: B(a, b) * self.v(b, k), self.n) - (self.i(a, k) - self.i(a, k - 1)) / h
        return ssum(lambda a: inv(c, a) * w(a), self.n) - (self.eT(c, k, T) - self.eT(c, k, T - dt))

    def v_end(self, c, side):
        k, z, s, K = (ZERO, self.zs, -1, ZERO) if side == 's' else (self.nx, self.zl, 1, self.nx - 1)
        h, dt, T = self.dn(K), self.dt, self.T
        A = lambda a, b: z(a) * h * (self.C(k, a, b) / dt + self.G(k, a, b) / 2) + eq0(a - b)
        B = lambda a, b: z(a) * h * (self.C(k, a, b) / dt - self.G(k, a, b) / 2) - eq0(a - b)
        inv = lambda a, b: matinv(self.n, A, a, b)
        rhs = lambda a: (self.matvec(B, lambda b: self.v(b, k), a) + 2 * s * z(a) * self.i(a, K) + self.vs(a, k, T) + self.vs(a, k, T - dt)
                         - h / dt * z(a) * ssum(lambda b: self.C(k, a, b) * (self.eT(b, k, T) - self.eT(b, k, T - dt)), self.n))
        return ssum(lambda a: inv(c, a) * rhs(a), self.n)

    def v_new(self, c, k):
        return ite(eq0(k), self.v_end(c, 's'), ite(eq0(k - self.nx), self.v_end(c, 'l'), self.v_inner(c, k)))

    def i_new(self, c, k, vnew=None):
        vn = vnew or self.v_new
        dt, T = self.dt, self.T
        A = lambda a, b: self.L(k, a, b) / dt + self.R(k, a, b) / 2 + self.D(k, a, b) / 2 + self.E(k, a, b) / dt + self.Q1(k, a, b)
        B = lambda a, b: self.L(k, a, b) / dt - self.R(k, a, b) / 2 - self.D(k, a, b) / 2 + self.E(k, a, b) / dt - self.Q2(k, a, b)
        inv = lambda a, b: matinv(self.n, A, a, b)
        w = lambda a: (ssum(lambda b: B(a, b) * self.i(b, k), self.n) - (vn(a, k + 1) - vn(a, k) + self.eT(a, k + 1, T) - self.eT(a, k, T)) / self.dn(k)
                       + (self.eL(a, k, T + dt / 2) + self.eL(a, k, T - dt / 2)) / 2 - self.Q3PHI(k, a))
        return ssum(lambda a: inv(c, a) * w(a), self.n)


def make_bundle(ctx, I, levels, name='bundle'):
    return I.call_value(ctx.cls(I, 'mtl', 'MTLD'), [pyval(I, levels)], dict(name=string(name)))


def make_mtln(ctx, I, bundles, networks=()):
    return I.call_value(ctx.cls(I, 'mtln', 'MTLN'), [pyval(I, list(bundles)), pyval(I, list(networks))], {})


def set_dt(I, x, dt=None):
    I.setattr(x, 'dt', DT if dt is None else dt)


def advance(ctx, I, x, steps=1):
    """run the public entry point for exactly `steps` time steps"""
    ctx.call(I, x, 'run_until', DT * steps)


def cut(I, line, *attrs):
    """give every later store into these arrays a name (see Interp.name_content)"""
    for a in attrs:
        x = I.getattr(line, a)
        if isinstance(x, Arr):
            I.cuts[cell_of(x)] = (a, 'num')


def sites(I, line):
    return tuple(I.state.w.get(cell_of(I.getattr(line, a))) for a in ('v', 'i'))


C_, K_ = ivar('c_'), ivar('k_')


def regions(k, last):
    """(label, index, facts) covering 0..last"""
    return [('first', ZERO, ()), ('last', last, ()), ('inner', k, (k - 1, last - 1 - k))]
