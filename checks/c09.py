"""One time step for everything"""
from checks.c08 import *
from checks.c02 import R_V, R_I, R_S, R_L, check_line, state

FLOOR = 30
TECH = ('Abstract interpretation of construction, step selection and one public step: the default step as a closed expression in cell lengths and eigenvalues, '
        'and the update equations, clock and probes compared for the step that the run was asked to use.')
R_D = 'default step of a line: shortest cell over the fastest phase velocity, 1/sqrt of the eigenvalues of L C'
R_M = 'a bundle takes the smallest step of its lines, a network of bundles the smallest step of its bundles'
R_U = 'the step that was asked for is the one in the update equations, the end terms, the clock and the probe times'


def default_step(ctx, n):
    I = ctx.interp()
    with facts(NX - 2):
        line = make_mtl(ctx, I, n=num(n))
        mine = I.getattr(line, 'dt')
        # the same expression written out: cell length over the largest of the mode velocities
        src = ('import numpy as np\nimport scipy.linalg as linalg\n'
               'def required(l, c, cell):\n    return cell / np.max(1/np.sqrt(np.real(linalg.eigvals(l.dot(c)))))\n')
        f = reference(I, src, 'required')
        a = symarr(I, 'Lm', (num(n), num(n)))
        b = symarr(I, 'Cm', (num(n), num(n)))
        want = I.call_value(f, [a, b, nvar('len') / NX], {})
        ctx.equal(I, 'default step of %d conductors' % n, mine, want, R_D)


def polyline_step(ctx, first_is_shorter):
    I = ctx.interp()
    n1, n2 = ivar('n1'), ivar('n2')
    a, g = nvar('cellA'), nvar('gap')
    POSITIVE.update((a.atom, g.atom))
    h1, h2 = (a, a + g) if first_is_shorter else (a + g, a)
    with facts(n1 - 1, n2 - 1):
        z = [ZERO, h1 * n1, h1 * n1 + h2 * n2]
        pos = symarr(I, 'np', (num(3), num(3)), content=lambda i: eq0(i[1] - 2) * (eq0(i[0] - 1) * z[1] + eq0(i[0] - 2) * z[2]))
        line = make_mtl(ctx, I, n=ONE, nx=pyval(I, [n1, n2]), length=None, node_positions=pos)
        want = a * mksqrt(rd('Lm', 0, 0) * rd('Cm', 0, 0))
        ctx.equal(I, 'default step, %s segment has the shorter cells' % ('first' if first_is_shorter else 'second'), I.getattr(line, 'dt'), want, R_D)


GAPS = [nvar('gap%d' % i) for i in range(3)]
POSITIVE.update(g.atom for g in GAPS)


def smallest(ctx, order):
    """lines with steps DT, DT+gap, .. in the given order"""
    I = ctx.interp()
    steps = [DT, DT + GAPS[0], DT + GAPS[0] + GAPS[1]]
    with facts(10 ** 9 - steps[2], NX - 2):
        lines = [simple_line(ctx, I, ONE, 'abc'[i]) for i in range(3)]
        for l, o in zip(lines, order):
            I.setattr(l, 'dt', steps[o])
        bd = make_bundle(ctx, I, {0: [lines[0]], 1: lines[1:]})
        ctx.equal(I, 'bundle step, lines in order %s' % (order,), I.getattr(bd, 'dt'), DT, R_M)
        bs = []
        for i, o in enumerate(order):
            b = make_bundle(ctx, I, {0: [simple_line(ctx, I, ONE, 'def'[i])]}, 'bundle%d' % i)
            I.setattr(b, 'dt', steps[o])
            bs.append(b)
        nw = make_mtln(ctx, I, bs)
        ctx.equal(I, 'network step, bundles in order %s' % (order,), I.getattr(nw, 'dt'), DT, R_M)


def asked_step(ctx, tag, own, how):
    """bundle and network come with another step; the run is asked for DT"""
    I = ctx.interp()
    n = num(2)
    with facts(SMALL_DT, 10 ** 9 - own, NX - 2):
        line = simple_line(ctx, I, n)
        bd = make_bundle(ctx, I, {0: [line]})
        I.setattr(bd, 'dt', own)
        dn = set_geometry(I, bd)
        set_pul(I, bd)
        state(I, bd, False, False)
        nw = make_mtln(ctx, I, [bd])
        I.setattr(nw, 'time', T)
        i0, v0 = snapshot(I, bd, 'i'), snapshot(I, bd, 'v')
        if how == 'argument':
            ctx.call(I, nw, 'run_until', DT * 1, DT)
        else:
            set_dt(I, nw)
            ctx.call(I, nw, 'run_until', DT * 1)
        eq = Eq(n, NX, dn)
        eq.v, eq.i = v0, i0
        eq.vs = eq.eT = eq.eL = lambda a, k, t: ZERO
        i1, v1 = snapshot(I, bd, 'i'), snapshot(I, bd, 'v')
        for r in range(2):
            c = num(r)
            with facts(K_ - 1, NX - 1 - K_):
                ctx.equal(I, '%s.voltage.%d' % (tag, r), v1(c, K_), eq.v_inner(c, K_), R_V + '; ' + R_U, sites(I, bd)[0])
            with facts(K_, NX - 1 - K_):
                ctx.equal(I, '%s.current.%d' % (tag, r), i1(c, K_), eq.i_new(c, K_, v1), R_I + '; ' + R_U, sites(I, bd)[1])
        ctx.equal(I, tag + '.clock', I.getattr(nw, 'time'), T + DT, R_U)


def line_step(ctx, tag, change):
    """a line given another step after construction (and after elements were put on it)"""
    I = ctx.interp()
    n = num(2)
    fin, cnt = nvar('final'), ivar('NDT')
    POSITIVE.add(fin.atom)
    with facts(NX - 2, cnt - 1):
        line = make_mtl(ctx, I, n=n)
        dn = set_geometry(I, line)
        set_pul(I, line)
        state(I, line, True, False)
        I.setattr(line, 'time', T)
        i0, v0 = snapshot(I, line, 'i'), snapshot(I, line, 'v')
        dt = DT
        if change == 'number of steps':
            ctx.call(I, line, 'set_time_step', cnt, fin)
            dt = fin / cnt
        else:
            I.setattr(line, 'dt', DT)
        ctx.call(I, line, 'run_until', dt * 1)
        eq = Eq(n, NX, dn)
        eq.v, eq.i, eq.dt = v0, i0, dt
        eq.eT = eq.eL = lambda a, k, t: ZERO
        i1, v1 = snapshot(I, line, 'i'), snapshot(I, line, 'v')
        c = ONE
        with facts(K_ - 1, NX - 1 - K_):
            ctx.equal(I, tag + '.voltage', v1(c, K_), eq.v_inner(c, K_), R_V + '; ' + R_U, sites(I, line)[0])
        ctx.equal(I, tag + '.near-end', v1(c, ZERO), eq.v_end(c, 's'), R_S + '; ' + R_U, sites(I, line)[0])
        ctx.equal(I, tag + '.far-end', v1(c, NX), eq.v_end(c, 'l'), R_L + '; ' + R_U, sites(I, line)[0])
        with facts(K_, NX - 1 - K_):
            ctx.equal(I, tag + '.current', i1(c, K_), eq.i_new(c, K_, v1), R_I + '; ' + R_U, sites(I, line)[1])
        ctx.equal(I, tag + '.clock', I.getattr(line, 'time'), T + dt, R_U)


def run(ctx):
    for n in (1, 2, 3):
        ctx.scenario('default step %d' % n, default_step, ctx, n)
    ctx.scenario('polyline 1', polyline_step, ctx, True)
    ctx.scenario('polyline 2', polyline_step, ctx, False)
    for o in ((0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0)):
        ctx.scenario('smallest %s' % (o,), smallest, ctx, o)
    ctx.scenario('asked by argument, smaller', asked_step, ctx, 'argument smaller', DT + DELTA, 'argument')
    ctx.scenario('asked by argument, larger', asked_step, ctx, 'argument larger', DT - DELTA, 'argument')
    ctx.scenario('asked by attribute', asked_step, ctx, 'attribute', DT + DELTA, 'attribute')
    ctx.scenario('line, attribute', line_step, ctx, 'line attribute', 'attribute')
    ctx.scenario('line, number of steps', line_step, ctx, 'line number of steps', 'number of steps')
    return ctx.close(FLOOR, TECH, [R_D, R_M, R_U])
