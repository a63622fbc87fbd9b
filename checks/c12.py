"""Impossible requests are refused and leave everything as it was."""
from checks.c11 import *
from checks.c06 import *
from checks.c07 import build as build_levels

FLOOR = 40
TECH = ('Abstract interpretation of each public entry point with a symbolic impossible request: the request must reach a refusal (raise or failed assertion) on every path, '
        'and the abstract state at that refusal must be the one before the request (and give the same update equations).')
R_REF = 'the request is refused'
R_SAME = 'the refusal happens before anything the run depends on was changed'


def refused(ctx, I, tag, request):
    """perform the request, decide whether it is certainly refused, and go on from the state at the refusal"""
    n0 = len(I.events)
    request()
    rej = [e for e in I.events[n0:] if e.name == 'reject' and e.guard.terms]
    sure = [e for e in rej if resimp(e.guard).const == 1]
    ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
    if not sure:
        if I.tainted or rej:
            ctx.undecided(tag + '.refused', 'whether the request is refused depends on %s' % ([show(e.guard)[:120] for e in rej[:2]] or I.tainted[:2]), R_REF)
        else:
            ctx.holds(tag + '.refused', False, R_REF, None, 'no refusal is reached')
        return False
    ctx.holds(tag + '.refused', True, R_REF, sure[0].site)
    I.state = sure[0].data.clone()
    return True


for _t in 'AB':
    POSITIVE.update((nvar('cte' + _t).atom, nvar('prop' + _t).atom))


def off_line(I, z):
    return symarr(I, 'pos', (num(3),), content=lambda idx: z * eq0(idx[0] - 2))


def connector(ctx, tag, request, elements=()):
    """a refused element on a line that may already carry one; then one step"""
    I = ctx.interp()
    n = num(2)
    with facts(SMALL_DT, NX - 3, ivar('PA') - 1, ivar('PB') - 1, X_ - 1, NX - 2 - X_):
        line = simple_line(ctx, I, n)
        if elements:
            ctx.call(I, line, 'add_dispersive_connector', node_position(I, X_), ONE, pyval(I, model(I, 'A')))
        if not refused(ctx, I, tag, lambda: request(I, line)):
            return
        havoc(I, line, 'v')
        havoc(I, line, 'i')
        cut(I, line, 'v', 'i')
        el = [(ONE, ONE, lambda k: eq0(k - X_), Rational('A', H))] if elements else []
        cells = [('cell', X_, ()), ('other cell', K_, (K_ - X_ - 1, NX - 1 - K_)), ('cell before', K_, (K_, X_ - 1 - K_))]
        run_history(ctx, I, line, line, el, 1, n, tag + ', afterwards', cells, lambda: simple_eq(n), R_SAME)


def impedance(ctx, tag, request):
    I = ctx.interp()
    ns = [num(1), num(1), num(1)]
    with facts(SMALL_DT, NX - 3, ivar('PA') - 1):
        bd = build_levels(ctx, I, ns, 'abc')
        nw = settle(ctx, I, bd)
        if not refused(ctx, I, tag, lambda: request(I, bd)):
            return
        cells = [('first', ZERO, ()), ('inner', K_, (K_ - 1, NX - 2 - K_)), ('last', NX - 1, ())]
        run_history(ctx, I, bd, nw, [], 1, num(3), tag + ', afterwards', cells, lambda: levels_eq(ns, 'abc'), R_SAME)


def probes(ctx, tag, bundle, z):
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        line = simple_line(ctx, I, num(2), nx=num(3) if bundle else None)
        x = make_bundle(ctx, I, {0: [line]}) if bundle else line
        ctx.call(I, x, 'add_probe', node_position(I, ONE), string('voltage'))
        if refused(ctx, I, tag, lambda: ctx.call(I, x, 'add_probe', off_line(I, z) if not callable(z) else z(I), string('current'))):
            n = I.call_value(Ext('builtins.len'), [I.getattr(x, 'probes')], {})
            ctx.equal(I, tag + '.probes', n, ONE, R_SAME)


def construction(ctx, tag, f):
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        refused(ctx, I, tag, lambda: f(ctx, I))


def two_bundles(ctx, I):
    a = make_bundle(ctx, I, {0: [simple_line(ctx, I, ONE, 'a')]}, 'cable')
    b = make_bundle(ctx, I, {0: [simple_line(ctx, I, ONE, 'b')]}, 'cable')
    make_mtln(ctx, I, [a, b])


def other_nodes(ctx, I):
    a = simple_line(ctx, I, ONE, 'a')
    b = simple_line(ctx, I, ONE, 'b')
    I.setattr(b, 'u', symarr(I, 'elsewhere', (NX + 1, num(3)), content=lambda i: ONE + i[0]))
    make_bundle(ctx, I, {0: [a], 1: [b]})


def two_outside(ctx, I):
    make_bundle(ctx, I, {0: [simple_line(ctx, I, ONE, 'a'), simple_line(ctx, I, ONE, 'b')]})


def run(ctx):
    A, B = lambda I: pyval(I, model(I, 'A')), lambda I: pyval(I, model(I, 'B'))
    put = lambda pos, m: (lambda I, line: ctx.call(I, line, 'add_dispersive_connector', pos(I), ONE, m(I)))
    ctx.scenario('beyond', connector, ctx, 'element beyond the far end', put(lambda I: off_line(I, LEN + DELTA), B), True)
    ctx.scenario('before', connector, ctx, 'element before the near end', put(lambda I: off_line(I, -DELTA), B), True)
    ctx.scenario('same place', connector, ctx, 'second element at the same place', put(lambda I: node_position(I, X_), B), True)

    def uneven(which, part):
        def m(I):
            d = model(I, 'B')
            d[which][part] = symlist(I, 'longer', ivar('PB') + 1)
            return pyval(I, d)
        return m
    for w, p in (('poles', 'real'), ('poles', 'imag'), ('residues', 'real'), ('residues', 'imag')):
        ctx.scenario('uneven ' + w + p, connector, ctx, 'element with uneven %s %s parts' % (w, p), put(lambda I: node_position(I, X_), uneven(w, p)), False)
        for side in (None, 'initial'):
            def req(I, bd, m=uneven(w, p), side=side):
                md = model(I, 'B', {'direction': 'in'})
                md[w][p] = symlist(I, 'longer', ivar('PB') + 1)
                args = [ZERO, pyval(I, [0]), ONE, pyval(I, [0]), pyval(I, md)]
                if side:
                    return ctx.call(I, bd, 'set_connector_transfer_impedance', string(side), *args)
                return ctx.call(I, bd, 'add_transfer_impedance', *args)
            ctx.scenario('uneven impedance %s%s%s' % (w, p, side), impedance, ctx, '%s impedance with uneven %s %s parts' % ('connector' if side else 'transfer', w, p), req)

    def imp(side, o, i):
        def req(I, bd):
            args = [num(o), pyval(I, [0]), num(i), pyval(I, [0]), pyval(I, model(I, 'A', {'direction': 'in'}))]
            if side:
                return ctx.call(I, bd, 'set_connector_transfer_impedance', string(side), *args)
            return ctx.call(I, bd, 'add_transfer_impedance', *args)
        return req
    ctx.scenario('levels 0 2', impedance, ctx, 'transfer impedance between levels 0 and 2', imp(None, 0, 2))
    ctx.scenario('levels 1 1', impedance, ctx, 'transfer impedance inside level 1', imp(None, 1, 1))
    ctx.scenario('connector 0 2', impedance, ctx, 'connector impedance between levels 0 and 2', imp('initial', 0, 2))
    ctx.scenario('side', impedance, ctx, 'connector impedance at an unknown side', imp('middle', 0, 1))

    for b in (False, True):
        t = 'probe of a bundle ' if b else 'probe of a line '
        ctx.scenario(t + 'beyond', probes, ctx, t + 'beyond the far end', b, LEN + DELTA + Fraction(1, 10 ** 6))
        ctx.scenario(t + 'before', probes, ctx, t + 'before the near end', b, -DELTA - Fraction(1, 10 ** 6))

    C = lambda nm, **kw: ctx.scenario(nm, construction, ctx, nm, lambda c, I: make_mtl(c, I, **{k: (v(I) if callable(v) else v) for k, v in kw.items()}))
    sq = lambda a, b=None: (lambda I: symarr(I, 'M%d%d' % (a, b or a), (num(a), num(b or a))))
    ve = lambda a: (lambda I: symarr(I, 'Z%d' % a, (num(a),)))
    C('L and C of different size', n=num(2), c=sq(3))
    C('L and C not square', n=num(2), l=sq(2, 3), c=sq(2, 3))
    C('scalar L with matrix C', n=num(2), l=nvar('l0'))
    C('R of the wrong size', n=num(2), r=sq(3))
    C('G of the wrong size', n=num(2), g=sq(3))
    C('R not square', n=num(2), r=sq(2, 3))
    C('G not square', n=num(2), g=sq(2, 3))
    C('too many end impedances', n=num(2), Zs=ve(3), Zl=ve(3))
    C('different numbers of end impedances', n=num(2), Zl=ve(3))
    C('scalar and array end impedances', n=num(2), Zl=nvar('z0'))
    C('more segments than vertices', n=num(1), nx=lambda I: pyval(I, [ivar('n1'), ivar('n2')]))
    ctx.scenario('same name', construction, ctx, 'two bundles of the same name', two_bundles)
    ctx.scenario('other nodes', construction, ctx, 'lines with different nodes in a bundle', other_nodes)
    ctx.scenario('two outside', construction, ctx, 'two lines in the outermost level', two_outside)
    return ctx.close(FLOOR, TECH, [R_REF, R_SAME])
