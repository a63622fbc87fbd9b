"""A case file: sources and probes."""
from checks.case import *
from checks.c17 import noise, r, LEN_A, LEN_B, one_wire, wire_want, CABLE
from checks.c18 import place

FLOOR = 30
TECH = ('Abstract interpretation of the parser on case files with each kind of source and probe, lengths, materials and parameters being arbitrary, then of public steps from an arbitrary state; '
        'node voltages and recorded frames are compared with those of the same sources and probes added by hand.')
R_S = 'the source at a node has the waveform its type and parameters describe'
R_P = 'each probe of the case watches the line of its cable, at the place of its node, for the quantity of its type, under its name'
R_U = 'a waveform of unknown type is refused'
Q = lambda x: nvar('src_' + x)
SCALED = {'t0': DT, 'x0': DT, 's0': DT, 'rise_time': DT, 'fall_time': DT}      # an arbitrary multiple of the step: the samples then lie in every part of the waveform


def value(p):
    return SCALED.get(p, ONE) * Q(p)


MK = '''
def one(f, a):
    def s(t):
        return f(t, a[0])
    return s

def two(f, a):
    def s(t):
        return f(t, a[0], a[1])
    return s

def three(f, a):
    def s(t):
        return f(t, a[0], a[1], a[2])
    return s

def five(f, a):
    def s(t):
        return f(t, a[0], a[1], a[2], a[3], a[4])
    return s
'''
FORMS = {
    'trapezoidal': ('trapezoidal_wave', 'five', ('amplitude', 'rise_time', 'fall_time', 'f0', 'D')),
    'ramp': ('ramp_pulse', 'two', ('amplitude', 't0')),
    'gaussian_2': ('gaussian_2', 'three', ('amplitude', 'x0', 's0')),
    'gaussian': ('gaussian', 'two', ('x0', 's0')),
    'sin_sq': ('sin_sq_pulse', 'two', ('amplitude', 'frequency')),
    'sin': ('sin_pulse', 'two', ('amplitude', 'frequency')),
    'exp': ('exp', 'two', ('amplitude', 't0')),
}


def waveform(ctx, I, kind):
    f, shape, ps = FORMS[kind]
    return I.call_value(reference(I, MK, shape), [ctx.fun(I, 'waveforms', f), pyval(I, [value(p) for p in ps])], {})


def source_case(kind, cid):
    c = one_wire((CABLE['R'], CABLE['R2']))
    return c.node(34, cid).add('sources', name='s', sourceType='TerminalSource', elemIds=[34], magnitude=dict(type=kind, **{p: value(p) for p in FORMS[kind][2]}))


def source_want(ctx, kind, cid):
    calls = [('connect_to_ground', 1, r[1]), ('connect_to_ground', 2, r[2])]
    s = lambda c, I: waveform(c, I, kind)
    return wire_want(ctx, [x + ((s,) if x[1] == cid else ()) for x in calls], (CABLE['R'], CABLE['R2']))


def unknown(ctx, tag):
    from checks.c12 import refused
    I = ctx.interp()
    c = one_wire((CABLE['R'], CABLE['R2'])).node(34, 1).add('sources', name='s', sourceType='TerminalSource', elemIds=[34], magnitude=dict(type='square root', amplitude=Q('amplitude')))
    with facts(SMALL_DT, *FACTS):
        refused(ctx, I, tag, lambda: c.parse(ctx, I))


def probe_case(probes):
    """two cables in two bundles; probes: (name, kind, element, coordinate, cable or None)"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenB'))
    c.line(2, 3, 4).line(1, 1, 2).wire(1, 'a').wire(6, 'b').connector(2, 'Conn_R', resistance=r[1])
    c.cable('C', 6, [2], 2, 2, 2).cable('A', 1, [1], 2, 2).bundle('one', '1').bundle('two', '2')
    for k, (name, kind, cid, cable) in enumerate(probes):
        c.node(60 + k, cid).add('probes', name=name, type=kind, elemIds=[60 + k], **({'cable': cable} if cable else {}))
    return c


def probed(ctx, tag, probes, steps):
    z = {1: ZERO, 2: LEN_A, 3: ZERO, 4: LEN_B}
    I = ctx.interp()
    with facts(SMALL_DT):
        p = probe_case(probes).parse(ctx, I)
        if not accepted(ctx, I, tag, R_P):
            return
        got = items(I, I.getattr(p, 'bundles'))
        settle(I, got)
        ctx.call(I, p, 'run', DT * steps, DT)
        J = ctx.interp()
        la, lc = the_line(ctx, J, 'A', 'a', ZERO, LEN_A), the_line(ctx, J, 'C', 'b', ZERO, LEN_B, None, 2)
        bs = [make_bundle(ctx, J, {0: [la]}, 'one'), make_bundle(ctx, J, {0: [lc]}, 'two')]
        ps = [ctx.call(J, bs[0 if cid in (1, 2) else 1], 'add_probe', place(J, z[cid]), string(kind)) for _, kind, cid, _ in probes]
        settle(J, bs)
        ctx.call(J, make_mtln(ctx, J, bs), 'run_until', DT * steps, DT)
        ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
        ctx.equal(I, tag + '.number', I.call_value(Ext('builtins.len'), [I.getattr(p, 'probes')], {}), num(len(probes)), R_P)
        for (name, _, _, _), w in zip(probes, ps):
            g = I.getitem(I.getattr(p, 'probes'), string(name))
            for k in range(steps):
                for a in ('t', 'val'):
                    pick = lambda X, o: X.getitem(X.getattr(o, a), num(k) if a == 't' else Tup([num(k), ZERO]))
                    ctx.equal(I, '%s.%s.%s%d' % (tag, name, a, k), pick(I, g), pick(J, w), R_P)


def run(ctx):
    EXPLICIT_INVERSE[0] = 4
    for kind in FORMS:
        for cid in (1, 2):
            t = '%s source at node %d' % (kind, cid)
            ctx.scenario(t, alike, ctx, t, source_case(kind, cid), source_want(ctx, kind, cid), R_S, 3)      # the first step samples the source at and before the origin of time
    ctx.scenario('unknown', unknown, ctx, 'source of unknown type')
    S = lambda t, ps, n=2: ctx.scenario(t, probed, ctx, t, ps, n)
    S('probes by cable', [('first', 'voltage', 1, 'A'), ('last', 'current', 4, 'C'), ('other', 'voltage', 4, 'C')])
    S('probes by place', [('first', 'voltage', 2, None), ('last', 'current', 3, None), ('third', 'current', 1, None)])
    S('probes both ways', [('near', 'current', 1, None), ('far', 'voltage', 4, 'C'), ('second', 'voltage', 2, 'A')], 3)
    return ctx.close(FLOOR, TECH, [R_S, R_P])
