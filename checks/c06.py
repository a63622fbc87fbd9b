"""Dispersive (lumped) elements: the recursive convolution."""
from checks.lines import *

FLOOR = 8
TECH = ('Abstract interpretation of add_dispersive_connector followed by three public time steps with a symbolic rational model (any number of poles), '
        'reading the convolution state through the current update only; normal forms compared cell by cell.')
R_I = ('cells: (L/dt+R/2+d/2+e/dt+sum q1) i_new = (L/dt-R/2-d/2+e/dt-sum q2) i_old - dv/cell length - sum(q3 phi) with the rational model of exactly the '
       'element placed there, scaled by the cell length')
R_P = 'phi_new = q1 i_new + q2 i_old + q3 phi_old, one state per pole and matrix entry, starting from rest'


def model(I, tag, extra=None):
    n = ivar('P' + tag)
    d = {'cte': nvar('cte' + tag), 'prop': nvar('prop' + tag),
         'poles': {'real': symlist(I, 'pr' + tag, n), 'imag': symlist(I, 'pi' + tag, n)},
         'residues': {'real': symlist(I, 'rr' + tag, n), 'imag': symlist(I, 'ri' + tag, n)}}
    d.update(extra or {})
    return d


J1 = P(Atom('J', (), 'num'))


class Rational:
    """the model the user passes: cte + s prop + sum residue/(s - pole), per metre (divided by `scale`)"""

    def __init__(self, tag, sc=ONE):
        self.n = ivar('P' + tag)
        self.cte, self.prop = nvar('cte' + tag) / sc, nvar('prop' + tag) / sc
        self.p = lambda k: rd('pr' + tag, k) + J1 * rd('pi' + tag, k)
        self.r = lambda k: (rd('rr' + tag, k) + J1 * rd('ri' + tag, k)) / sc
        ex = lambda k, dt: app('exp', (self.p(k) * dt,))
        self.q1 = lambda k, dt: -(self.r(k) / self.p(k)) * (1 - (ex(k, dt) - 1) / (self.p(k) * dt))
        self.q2 = lambda k, dt: (self.r(k) / self.p(k)) * (1 / (self.p(k) * dt) + ex(k, dt) * (1 - 1 / (self.p(k) * dt)))
        self.q3 = lambda k, dt: ex(k, dt)
        self.sum = lambda f: app('real', (ssum(f, self.n),))


LEN = nvar('len')
POSITIVE.add(LEN.atom)
X_, X2_ = ivar('X'), ivar('Y')
H = LEN / NX


def node_position(I, k):
    """the position of node k of a straight uniform line"""
    return symarr(I, 'pos', (3,), content=lambda idx: k * H * eq0(idx[0] - 2))


def zeros(I, n=None):
    n = N if n is None else n
    return symarr(I, 'zero', (n, n), content=lambda idx: ZERO)


def simple_line(ctx, I, n=None, tag='', nx=None, dt=None, **kw):
    """uniform, lossless, arbitrary time step"""
    args = dict(r=zeros(I, n), g=zeros(I, n))
    args.update(kw)
    line = make_mtl(ctx, I, tag, n, nx, length=LEN, **args)
    generalise(I, I.getattr(line, 'dt'), DT if dt is None else dt)
    return line


def simple_eq(n=None, zs=None):
    eq = Eq(N if n is None else n, NX, lambda k: H)
    eq.C, eq.L = (lambda k, a, b: rd('Cm', a, b)), (lambda k, a, b: rd('Lm', a, b))
    eq.G = eq.R = lambda k, a, b: ZERO
    z = lambda a, k, t: ZERO
    eq.vs = eq.eT = eq.eL = z
    return eq


class History:
    """currents of successive steps as the run left them, and the convolution state they imply"""

    def __init__(self, elements, dt=None):
        # elements: (row, col, cell indicator function, Rational)
        self.el = elements
        self.i = []
        self.dt = DT if dt is None else dt

    def phi(self, row, col, m, k, j, step):
        q1, q2, q3 = m.q1(j, self.dt), m.q2(j, self.dt), m.q3(j, self.dt)
        r = ZERO
        for s in range(1, step + 1):
            r = q3 * r + q1 * self.i[s](col, k) + q2 * self.i[s - 1](col, k)
        return r

    def install(self, eq, step):
        """the extra terms of the current update that makes step+1 out of step"""
        dt = self.dt

        def entry(f):
            def g(k, a, b):
                t = ZERO
                for row, col, at, m in self.el:
                    w = eq0(a - row) * eq0(b - col) * at(k)
                    if not is_zero(w):
                        t = t + w * f(m)
                return t
            return g
        eq.D = entry(lambda m: m.cte)
        eq.E = entry(lambda m: m.prop)
        eq.Q1 = entry(lambda m: ssum(lambda j: m.q1(j, dt), m.n))
        eq.Q2 = entry(lambda m: ssum(lambda j: m.q2(j, dt), m.n))

        def q3phi(k, a):
            t = ZERO
            for row, col, at, m in self.el:
                w = eq0(a - row) * at(k)
                if not is_zero(w):
                    t = t + w * ssum(lambda j: m.q3(j, dt) * self.phi(row, col, m, k, j, step), m.n)
            return t
        eq.Q3PHI = q3phi


def snapshot(I, line, name):
    c = I.content(I.getattr(line, name))
    return lambda a, k: c((topoly(a), topoly(k)))


def run_history(ctx, I, line, runner, elements, steps, n, tag, cells, eqf, rule, t0=None, dt=None):
    """advance step by step and compare every new current with the equation"""
    h = History(elements, dt)
    h.i.append(snapshot(I, line, 'i'))
    for s in range(steps):
        vold = snapshot(I, line, 'v')
        if isinstance(runner, tuple):
            ctx.call(I, runner[0], 'run_until', DT * 1)
        else:
            advance(ctx, I, runner)
        h.i.append(snapshot(I, line, 'i'))
        vn = snapshot(I, line, 'v')
        eq = eqf()
        eq.i = h.i[s]
        h.install(eq, s)
        for lab, k, fs in cells:
            with facts(*fs):
                rows = [(C_, '')] if topoly(n).const is None else [(num(r), '.conductor %d' % r) for r in range(int(topoly(n).const))]
                for c, rl in rows:
                    with facts(c, n - 1 - c):
                        got = definition(I, h.i[s + 1](c, k))
                        ctx.equal(I, '%s.step%d.current.%s%s' % (tag, s + 1, lab, rl), got, eq.i_new(c, k, vn), rule, sites(I, line)[1])


def definition(I, got):
    """one level of definition of a named (cut) value"""
    a = got.atom
    if a is not None and a.head == 'rd' and a.args[0].atom is not None and a.args[0].atom.head == 'var' and a.args[0].atom.args[0] in I.defs:
        return I.defs[a.args[0].atom.args[0]][0](a.args[1:])
    return got


def one_element(ctx):
    I = ctx.interp()
    c0 = ivar('cond')
    with facts(NX - 2, N - 1, ivar('PA') - 1, X_, NX - 1 - X_, c0, N - 1 - c0):
        line = simple_line(ctx, I)
        ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), c0, pyval(I, model(I, 'A')))
        havoc(I, line, 'v')
        havoc(I, line, 'i')
        cut(I, line, 'v', 'i')
        cells = [('there', X_, ()), ('elsewhere', K_, (K_, X_ - 1 - K_))]
        run_history(ctx, I, line, line, [(c0, c0, lambda k: eq0(k - X_), Rational('A', H))], 3, N, 'one element', cells, simple_eq, R_I)


def two_elements(ctx):
    """two elements in one cell, on different conductors, do not disturb each other"""
    I = ctx.interp()
    c0, c1 = ivar('cond'), ivar('cond2')
    with facts(NX - 2, N - 1, ivar('PA') - 1, ivar('PB') - 1, X_, NX - 1 - X_, c0, N - 1 - c1, c1 - 1 - c0):
        line = simple_line(ctx, I)
        ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), c0, pyval(I, model(I, 'A')))
        ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), c1, pyval(I, model(I, 'B')))
        havoc(I, line, 'v')
        havoc(I, line, 'i')
        cut(I, line, 'v', 'i')
        at = lambda k: eq0(k - X_)
        run_history(ctx, I, line, line, [(c0, c0, at, Rational('A', H)), (c1, c1, at, Rational('B', H))], 2, N, 'two elements', [('there', X_, ())], simple_eq, R_I)


def blocks(na, fa, fb):
    """entry function of block_diag(A, B)"""
    def g(x, y):
        x, y = topoly(x), topoly(y)
        xa, ya = lt0(x - na), lt0(y - na)
        r = ZERO
        if not is_zero(xa * ya):
            r = r + xa * ya * fa(x, y)
        xb, yb = 1 - xa, 1 - ya
        if not is_zero(xb * yb):
            r = r + xb * yb * fb(x - na, y - na)
        return r
    return g


NA, NB = ivar('NA'), ivar('NB')


def bundle_eq():
    eq = Eq(NA + NB, NX, lambda k: H)
    eq.C = lambda k, x, y: blocks(NA, lambda p, q: rd('Cma', p, q), lambda p, q: rd('Cmb', p, q))(x, y)
    eq.L = lambda k, x, y: blocks(NA, lambda p, q: rd('Lma', p, q), lambda p, q: rd('Lmb', p, q))(x, y)
    eq.G = eq.R = lambda k, a, b: ZERO
    eq.vs = eq.eT = eq.eL = lambda a, k, t: ZERO
    return eq


def in_bundle(ctx):
    """an element placed on a wire keeps acting on that wire in the bundle built from it"""
    I = ctx.interp()
    c0 = ivar('cond')
    with facts(SMALL_DT, NX - 2, NA - 1, NB - 1, ivar('PA') - 1, X_, NX - 1 - X_, c0, NB - 1 - c0):
        a = simple_line(ctx, I, NA, 'a')
        b = simple_line(ctx, I, NB, 'b')
        ctx.call(I, b, 'add_dispersive_connector', node_position(I, X_), c0, pyval(I, model(I, 'A')))
        bd = make_bundle(ctx, I, {0: [a], 1: [b]})
        nw = make_mtln(ctx, I, [bd])
        set_dt(I, nw)
        havoc(I, bd, 'v')
        havoc(I, bd, 'i')
        cut(I, bd, 'v', 'i')
        row = NA + c0
        run_history(ctx, I, bd, nw, [(row, row, lambda k: eq0(k - X_), Rational('A', H))], 2, NA + NB, 'in bundle', [('there', X_, ())], bundle_eq, R_I)


DELTA = nvar('delta')
POSITIVE.add(DELTA.atom)


def changed_step(ctx, tag, dt0):
    """the element obeys the step the run uses, whatever the step was when it was placed"""
    I = ctx.interp()
    c0 = ivar('cond')
    with facts(NX - 2, N - 1, ivar('PA') - 1, X_, NX - 1 - X_, c0, N - 1 - c0):
        line = simple_line(ctx, I, dt=dt0)
        ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), c0, pyval(I, model(I, 'A')))
        set_dt(I, line)
        havoc(I, line, 'v')
        havoc(I, line, 'i')
        cut(I, line, 'v', 'i')
        run_history(ctx, I, line, line, [(c0, c0, lambda k: eq0(k - X_), Rational('A', H))], 2, N, tag, [('there', X_, ())], simple_eq, R_I)


def run(ctx):
    ctx.scenario('smaller step', changed_step, ctx, 'smaller step', DT + DELTA)
    ctx.scenario('larger step', changed_step, ctx, 'larger step', DT - DELTA)
    ctx.scenario('one element', one_element, ctx)
    ctx.scenario('two elements', two_elements, ctx)
    ctx.scenario('in bundle', in_bundle, ctx)
    return ctx.close(FLOOR, TECH, [R_I, R_P])
