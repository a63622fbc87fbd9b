"""Discretisation of a polyline."""
from checks.c09 import *

FLOOR = 30
TECH = ('Abstract interpretation of line construction from a symbolic polyline (arbitrary vertices, arbitrary numbers of divisions); node positions, cell vectors and the '
        'lengths that enter the update equations are compared segment by segment with the equal division of each segment.')
R_U2 = 'node k of segment i lies at vertex i + k/n_i (vertex i+1 - vertex i); consecutive segments share their vertex; the last node is the last vertex'
R_DU = 'every cell of segment i is (vertex i+1 - vertex i)/n_i long, and that length is the one in the update equations'


def vertex(i):
    return lambda x: rd('vertex', num(i), x)


def poly(ctx, I, ndivs, n=ONE):
    S = len(ndivs)
    pos = symarr(I, 'vertex', (num(S + 1), num(3)))
    return make_mtl(ctx, I, n=n, nx=pyval(I, list(ndivs)), length=None, node_positions=pos, r=zeros(I, n), g=zeros(I, n))


def segments(ndivs):
    off = ZERO
    for i, m in enumerate(ndivs):
        yield i, off, m
        off = off + m


def seg_len(i, m):
    d = lambda x: rd('vertex', num(i + 1), num(x)) - rd('vertex', num(i), num(x))
    return mksqrt(d(0) * d(0) + d(1) * d(1) + d(2) * d(2)) / m


def geometry(ctx, S, bundle=False):
    I = ctx.interp()
    ndivs = [ivar('n%d' % (i + 1)) for i in range(S)]
    tag = ('bundle, ' if bundle else '') + '%d segments' % S
    with facts(*[m - 1 for m in ndivs]):
        line = poly(ctx, I, ndivs)
        if bundle:
            generalise(I, I.getattr(line, 'dt'), DT)
            with facts(SMALL_DT):
                line = make_bundle(ctx, I, {0: [line]})
        u, du = I.getattr(line, 'u'), I.getattr(line, 'du')
        n = sum(ndivs, ZERO)
        ctx.equal(I, tag + '.number of nodes', u.shape[0], n + 1, R_U2)
        ctx.equal(I, tag + '.number of cells', du.shape[0], n, R_DU)
        for i, off, m in segments(ndivs):
            k = ivar('k_')
            for x in range(3):
                p, q = rd('vertex', num(i), num(x)), rd('vertex', num(i + 1), num(x))
                with facts(k - 1, m - 1 - k):
                    ctx.equal(I, '%s.segment %d.inner node.%s' % (tag, i, 'xyz'[x]), I.read(u, (off + k, num(x))), p + k * (q - p) / m, R_U2, I.state.w.get(cell_of(u)))
                ctx.equal(I, '%s.segment %d.first node.%s' % (tag, i, 'xyz'[x]), I.read(u, (off, num(x))), p, R_U2, I.state.w.get(cell_of(u)))
                ctx.equal(I, '%s.segment %d.last node.%s' % (tag, i, 'xyz'[x]), I.read(u, (off + m, num(x))), q, R_U2, I.state.w.get(cell_of(u)))
                with facts(k, m - 1 - k):
                    ctx.equal(I, '%s.segment %d.cell.%s' % (tag, i, 'xyz'[x]), I.read(du, (off + k, num(x))), (q - p) / m, R_DU, I.state.w.get(cell_of(du)))


def lengths(ctx, bundle, n=1):
    """the cell lengths seen by the update equations of a two-segment line"""
    I = ctx.interp()
    n = num(n)
    ndivs = [ivar('n1'), ivar('n2')]
    tag = 'bundle lengths' if bundle else 'line lengths'
    with facts(SMALL_DT, *[m - 3 for m in ndivs]):
        line = poly(ctx, I, ndivs, n)
        generalise(I, I.getattr(line, 'dt'), DT)
        run = x = line
        if bundle:
            x = make_bundle(ctx, I, {0: [line]})
            run = make_mtln(ctx, I, [x])
        set_dt(I, run)
        set_pul(I, x)
        havoc(I, x, 'v')
        havoc(I, x, 'i')
        cut(I, x, 'v', 'i')
        i0, v0 = snapshot(I, x, 'i'), snapshot(I, x, 'v')
        advance(ctx, I, run)
        i1, v1 = snapshot(I, x, 'i'), snapshot(I, x, 'v')
        l1, l2 = seg_len(0, ndivs[0]), seg_len(1, ndivs[1])
        nx = ndivs[0] + ndivs[1]
        for lab, k, fs, h, hd in (('first segment', K_, (K_ - 1, ndivs[0] - 1 - K_), l1, l1), ('corner', ndivs[0], (), l2, (l1 + l2) / 2),
                                  ('second segment', ndivs[0] + K_, (K_ - 1, ndivs[1] - 1 - K_), l2, l2)):
            eq = Eq(n, nx, lambda j, h=h, hd=hd, k=k: h if j is k or is_zero(j - k) else 2 * hd - h)
            eq.v, eq.i = v0, i0
            eq.vs = eq.eT = eq.eL = lambda a, kk, t: ZERO
            with facts(*fs):
                ctx.equal(I, '%s.voltage.%s' % (tag, lab), definition(I, v1(n - 1, k)), eq.v_inner(n - 1, k), R_V + '; ' + R_DU, sites(I, x)[0])
                ctx.equal(I, '%s.current.%s' % (tag, lab), definition(I, i1(n - 1, k)), eq.i_new(n - 1, k, v1), R_I + '; ' + R_DU, sites(I, x)[1])
        if not bundle:
            for side, h in (('s', l1), ('l', l2)):
                eq = Eq(n, nx, lambda j: h)
                eq.v, eq.i = v0, i0
                eq.vs = eq.eT = eq.eL = lambda a, kk, t: ZERO
                ctx.equal(I, '%s.end.%s' % (tag, side), definition(I, v1(n - 1, ZERO if side == 's' else nx)), eq.v_end(n - 1, side), (R_S if side == 's' else R_L) + '; ' + R_DU, sites(I, x)[0])


def straight(ctx):
    """the default geometry: from the origin along z"""
    I = ctx.interp()
    with facts(NX - 2):
        line = make_mtl(ctx, I, n=ONE)
        u = I.getattr(line, 'u')
        for x in range(3):
            with facts(K_, NX - K_):
                ctx.equal(I, 'default geometry.%s' % 'xyz'[x], I.read(u, (K_, num(x))), (nvar('len') * K_ / NX) if x == 2 else ZERO, R_U2)


def run(ctx):
    for S in (1, 2, 3):
        ctx.scenario('%d segments' % S, geometry, ctx, S)
    ctx.scenario('bundle, 2 segments', geometry, ctx, 2, True)
    ctx.scenario('line lengths', lengths, ctx, False)
    ctx.scenario('bundle lengths', lengths, ctx, True)
    ctx.scenario('default geometry', straight, ctx)
    if ctx.thorough:
        ctx.scenario('4 segments', geometry, ctx, 4)
    return ctx.close(FLOOR, TECH, [R_U2, R_DU])
