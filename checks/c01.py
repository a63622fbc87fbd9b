"""Runs perform the requested number of steps and continue from the state at hand."""
from checks.c14 import *
from checks.c07 import build, empty_model

FLOOR = 40
TECH = ('Abstract interpretation of run_until on lines, bundles and networks with a symbolic final time (trip count) and of several runs in a row compared with one run of as many steps; '
        'the normal forms of clock, voltages and currents are compared.')
R_K = 'a run to a final time performs the whole number of steps that fit into it and the clock advances by that many steps'
R_P = 'what is left of the final time after the last whole step has no effect'
R_C = 'runs in a row leave the voltages, currents and clock that one run of as many steps leaves'
R_O = 'each step uses the sources at its own time, one step after those of the step before'
F_ = nvar('final')
FA, FB = nvar('fa'), nvar('fb')
POSITIVE.update(x.atom for x in (F_, FA, FB, nvar('dt0')))


def line_with_all(ctx, I):
    line = simple_line(ctx, I, num(1))
    havoc(I, line, 'v_sources', 'vs', 'fun')
    ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), ZERO, pyval(I, model(I, 'A')))
    return line, line, [line]


def plain_line(ctx, I):
    line = simple_line(ctx, I, num(1))
    havoc(I, line, 'v_sources', 'vs', 'fun')
    havoc(I, line, 'e_L', 'eL', 'fun')
    havoc(I, line, 'e_T', 'eT', 'fun')
    return line, line, [line]


def one_bundle(ctx, I):
    bd = build(ctx, I, [num(1), num(1)], 'ab')
    ctx.call(I, bd, 'add_transfer_impedance', ZERO, pyval(I, [ZERO]), ONE, pyval(I, [ZERO]), pyval(I, empty_model('D', 'in')))
    nw = make_mtln(ctx, I, [bd])
    set_dt(I, nw)
    return bd, nw, [bd]


def two_bundles(ctx, I):
    m = Model(ctx, I, {'a': [[1]], 'b': [[1]]})
    nws = [m.network([('a', 0, 0, 'L', [(0, 0, 'R')]), ('b', 0, 0, 'S', [(1, 0, 'R')])], [between(0, 1, R_)]),
           m.network([('a', 0, 0, 'S', [(0, 0, 'C')])], [ground('C', C2_)])]
    nt = make_mtln(ctx, I, list(m.bd.values()), [levelled(ctx, I, [x]) for x in nws])
    set_dt(I, nt)
    return m.bd['a'], nt, list(m.bd.values())


SETUPS = {'line': plain_line, 'line with a dispersive element': line_with_all, 'bundle with transfer impedance': one_bundle, 'network of two bundles': two_bundles}
FS = (SMALL_DT, NX - 4, ivar('PA') - 1, X_ - 1, NX - 2 - X_)


def settle_all(I, run, lines):
    for k, x in enumerate(lines):
        havoc(I, x, 'v', 'v%d' % k)
        havoc(I, x, 'i', 'i%d' % k)
        I.setattr(x, 'time', nvar('t0'))
    I.setattr(run, 'time', nvar('t0'))


def prepare(ctx, name, later=False):
    I = ctx.interp()
    x, run, lines = SETUPS[name](ctx, I)
    settle_all(I, run, lines)
    return I, run, lines


def trip(ctx, tag, name, final, count, *fs, rest=()):
    """the clock after a run to `final`, and the frames recorded"""
    with facts(*(FS + fs)):
        I, run, lines = prepare(ctx, name)
        prs = [ctx.call(I, b, 'add_probe', node_position(I, ONE), string(kd)) for b, kd in zip(lines, ('voltage', 'current'))] if name != 'network of two bundles' else []
        ctx.call(I, run, 'run_until', final, *rest)
        step = rest[0] if rest else DT
        ctx.equal(I, tag + '.clock', I.getattr(run, 'time'), nvar('t0') + count * step, R_K)
        for k, p in enumerate(prs):
            ctx.equal(I, '%s.frames%d' % (tag, k), npmodel.as_array(I, I.getattr(p, 't')).shape[0], count, R_K)


def state(I, run, lines, tag):
    out = []
    for b, x in enumerate(lines):
        v, i = snapshot(I, x, 'v'), snapshot(I, x, 'i')
        n = topoly(npmodel.as_array(I, I.getattr(x, 'v')).shape[0])
        for c in range(int(n.const)):
            for lab, k, fs in (('near', ZERO, ()), ('second', ONE, ()), ('inner', X_, ()), ('far', NX, ())):
                out.append(('%s.%d.v%d.%s' % (tag, b, c, lab), v(num(c), k)))
                if lab != 'far':
                    out.append(('%s.%d.i%d.%s' % (tag, b, c, lab), i(num(c), k)))
            out.append(('%s.%d.i%d.last' % (tag, b, c), i(num(c), NX - 1)))
    out.append((tag + '.clock', topoly(I.getattr(run, 'time'))))
    return out


def after(ctx, name, finals, tag):
    I, run, lines = prepare(ctx, name)
    for f in finals:
        ctx.call(I, run, 'run_until', f)
    ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
    return I, state(I, run, lines, tag)


def same_as(ctx, tag, name, finals, ref, rule):
    """the runs `finals` leave the state of the runs `ref`"""
    with facts(*FS):
        _, want = after(ctx, name, ref, tag)
        I, got = after(ctx, name, finals, tag)
        for (t, g), (_, w) in zip(got, want):
            ctx.equal(I, t, g, w, rule)


def untouched(ctx, tag, name):
    """a run shorter than one step changes nothing"""
    with facts(*FS):
        I, run, lines = prepare(ctx, name)
        want = state(I, run, lines, tag)
        ctx.call(I, run, 'run_until', DT / 2)
        for (t, g), (_, w) in zip(state(I, run, lines, tag), want):
            ctx.equal(I, t, g, w, R_P)


def run(ctx):
    half, tenth = num(Fraction(1, 2)), num(Fraction(1, 10))
    for name in SETUPS:
        S = lambda tag, f, *a, **k: ctx.scenario('%s, %s' % (name, tag), lambda: f(ctx, '%s, %s' % (name, tag), name, *a, **k))
        S('any final time', trip, F_, app('floor', (F_ / DT,), 'int'))
        S('whole steps', trip, DT * ivar('m'), ivar('m'), ivar('m') - 1)
        S('shorter than a step', untouched)
        S('part of a step left', same_as, [DT * (1 + tenth)], [DT], R_P)
        S('nearly another step', same_as, [DT * (2 - tenth)], [DT], R_P)
        S('run, then run', same_as, [DT, DT], [DT * 2], R_C)
        S('run with a rest, then run', same_as, [DT * (1 + half), DT], [DT * 2], R_C)
        if name in ('line', 'network of two bundles') or ctx.thorough:
            S('one and two', same_as, [DT, DT * 2], [DT * 3], R_C)
        if ctx.thorough:
            S('two and one', same_as, [DT * 2, DT], [DT * 3], R_C)
    for name in ('bundle with transfer impedance', 'network of two bundles'):
        t = name + ', step given to the run'
        ctx.scenario(t, lambda: trip(ctx, t, name, F_, app('floor', (F_ / nvar('dt0'),), 'int'), rest=(nvar('dt0'),)))
    return ctx.close(FLOOR, TECH, [R_K, R_P, R_C])
