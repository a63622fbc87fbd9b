"""Transfer impedance between shield and inner conductors."""
from checks.c06 import *

FLOOR = 12
TECH = ('Abstract interpretation of add_transfer_impedance / set_connector_transfer_impedance on bundles with symbolic numbers of conductors per level, '
        'followed by public time steps; the current update is compared with the equation containing exactly the required entries.')
R_T = ('cells: every listed inner conductor sees minus (factor-scaled) transfer impedance times the current of every listed outer conductor ("in"), the reverse ("out"), or '
       'both; all cells alike, other entries untouched')
R_C = 'a connector transfer impedance replaces the one of the first ("initial") or last ("end") cell only'
FAC = nvar('factor')
POSITIVE.add(FAC.atom)
POSITIVE.add(nvar('cteD').atom)


def levels_eq(ns, tags):
    n = ZERO
    for x in ns:
        n = n + x
    eq = Eq(n, NX, lambda k: H)

    def blk(nm):
        def g(k, x, y):
            x, y = topoly(x), topoly(y)
            r, off = ZERO, ZERO
            for sz, t in zip(ns, tags):
                ix = (1 - lt0(x - off)) * lt0(x - off - sz)
                iy = (1 - lt0(y - off)) * lt0(y - off - sz)
                w = ix * iy
                if not is_zero(w):
                    r = r + w * rd(nm + t, x - off, y - off)
                off = off + sz
            return r
        return g
    eq.C, eq.L = blk('Cm'), blk('Lm')
    eq.G = eq.R = lambda k, a, b: ZERO
    eq.vs = eq.eT = eq.eL = lambda a, k, t: ZERO
    return eq


def empty_model(tag, direction, factor=None):
    d = {'cte': nvar('cte' + tag), 'prop': nvar('prop' + tag), 'poles': {'real': [], 'imag': []}, 'residues': {'real': [], 'imag': []}, 'direction': direction}
    if factor is not None:
        d['factor'] = factor
    return d


def entries(direction, outs, ins, at, m):
    el = []
    for o in outs:
        for i in ins:
            if direction in ('in', 'both'):
                el.append((i, o, at, m))
            if direction in ('out', 'both'):
                el.append((o, i, at, m))
    return el


def build(ctx, I, ns, tags):
    lines = [simple_line(ctx, I, n, t) for n, t in zip(ns, tags)]
    bd = make_bundle(ctx, I, dict(enumerate([l] for l in lines)))
    return bd


def settle(ctx, I, bd):
    nw = make_mtln(ctx, I, [bd])
    set_dt(I, nw)
    havoc(I, bd, 'v')
    havoc(I, bd, 'i')
    cut(I, bd, 'v', 'i')
    return nw


def two_levels(ctx, direction, tag, ns, out, ins, steps=2, factor=FAC):
    I = ctx.interp()
    ns = [num(x) for x in ns]
    with facts(SMALL_DT, NX - 2, ivar('PA') - 1):
        bd = build(ctx, I, ns, 'ab')
        extra = {'direction': direction}
        if factor is not None:
            extra['factor'] = factor
        ctx.call(I, bd, 'add_transfer_impedance', ZERO, pyval(I, [num(out)]), ONE, pyval(I, [num(i) for i in ins]), pyval(I, model(I, 'A', extra)))
        nw = settle(ctx, I, bd)
        m = Rational('A', -(factor if factor is not None else ONE))
        el = entries(direction, [num(out)], [ns[0] + i for i in ins], lambda k: ONE, m)
        run_history(ctx, I, bd, nw, el, steps, ns[0] + ns[1], tag, [('any cell', K_, (K_, NX - 1 - K_))], lambda: levels_eq(ns, 'ab'), R_T)


def three_levels(ctx, tag, outs, ins, conn=None, lev=(1, 2), ns=None):
    I = ctx.interp()
    ns = [num(n) for n in ns or ((1, 2, 1) if len(outs) == 1 else (1, 2, 2))]
    with facts(SMALL_DT, NX - 3):
        bd = build(ctx, I, ns, 'abc')
        m = Rational('D', -ONE)
        m.n = ZERO
        args = (num(lev[0]), pyval(I, [num(o) for o in outs]), num(lev[1]), pyval(I, [num(i) for i in ins]))
        eo = [sum(ns[:lev[0]], ZERO) + o for o in outs]
        ei = [sum(ns[:lev[1]], ZERO) + i for i in ins]
        if conn is None:
            ctx.call(I, bd, 'add_transfer_impedance', *args, pyval(I, empty_model('D', 'in')))
            el = entries('in', eo, ei, lambda k: ONE, m)
            cells = [('any cell', K_, (K_, NX - 1 - K_))]
        else:
            ctx.call(I, bd, 'set_connector_transfer_impedance', string(conn), *args, pyval(I, empty_model('D', 'out')))
            end = ZERO if conn == 'initial' else NX - 1
            el = entries('out', eo, ei, lambda k: eq0(k - end), m)
            cells = [('first cell', ZERO, ()), ('inner cell', K_, (K_ - 1, NX - 2 - K_)), ('last cell', NX - 1, ())]
        nw = settle(ctx, I, bd)
        run_history(ctx, I, bd, nw, el, 1, sum(ns, ZERO), tag, cells, lambda: levels_eq(ns, 'abc'), R_T if conn is None else R_C)


def connector(ctx, side, ns, out, inn):
    """cable impedance A everywhere, connector impedance B in one end cell"""
    I = ctx.interp()
    ns = [num(x) for x in ns]
    with facts(SMALL_DT, NX - 3, ivar('PA') - 1, ivar('PB') - 1):
        bd = build(ctx, I, ns, 'ab')
        where = (ZERO, pyval(I, [num(out)]), ONE, pyval(I, [num(inn)]))
        ctx.call(I, bd, 'add_transfer_impedance', *where, pyval(I, model(I, 'A', {'direction': 'both'})))
        ctx.call(I, bd, 'set_connector_transfer_impedance', string(side), *where, pyval(I, model(I, 'B', {'direction': 'both', 'factor': FAC})))
        nw = settle(ctx, I, bd)
        end = ZERO if side == 'initial' else NX - 1
        at = lambda k: eq0(k - end)
        i = [ns[0] + inn]
        el = (entries('both', [num(out)], i, lambda k: 1 - at(k), Rational('A', -ONE)) + entries('both', [num(out)], i, at, Rational('B', -FAC)))
        cells = [('first cell', ZERO, ()), ('inner cell', K_, (K_ - 1, NX - 2 - K_)), ('last cell', NX - 1, ())]
        run_history(ctx, I, bd, nw, el, 2, ns[0] + ns[1], 'connector ' + side, cells, lambda: levels_eq(ns, 'ab'), R_C)


def run(ctx):
    ctx.scenario('connector initial', connector, ctx, 'initial', (1, 2), 0, 1)
    ctx.scenario('connector end', connector, ctx, 'end', (2, 1), 1, 0)
    ctx.scenario('in', two_levels, ctx, 'in', 'in', (2, 1), 1, (0,))
    ctx.scenario('out', two_levels, ctx, 'out', 'out', (1, 2), 0, (1,))
    ctx.scenario('both', two_levels, ctx, 'both', 'both', (2, 1), 0, (0,), 2, None)
    ctx.scenario('two inner conductors', two_levels, ctx, 'in', 'two inner', (2, 2), 1, (0, 1), 1)
    ctx.scenario('third level', three_levels, ctx, 'third level', (1,), (0,))
    ctx.scenario('third level, two and two', three_levels, ctx, 'third level, two and two', (0, 1), (0, 1))
    ctx.scenario('third level connector', three_levels, ctx, 'third level connector', (1,), (0,), 'end')
    ctx.scenario('outer two of three levels', three_levels, ctx, 'outer two of three levels', (0,), (1,), None, (0, 1), (1, 2, 1))
    ctx.scenario('outer two of three levels, connector', three_levels, ctx, 'outer two of three levels, connector', (1,), (0,), 'initial', (0, 1), (2, 1, 1))
    if ctx.thorough:
        ctx.scenario('three unequal levels', three_levels, ctx, 'three unequal levels', (1,), (0, 2), None, (1, 2), (2, 2, 3))
        for d in ('in', 'out', 'both'):
            ctx.scenario('large ' + d, two_levels, ctx, d, 'large ' + d, (3, 3), 2, (0, 2), 2)
    return ctx.close(FLOOR, TECH, [R_T, R_C])
