"""A case file: terminations and junctions."""
from checks.case import *

FLOOR = 60
TECH = ('Abstract interpretation of the parser on case files of fixed topology whose lengths, materials, connector values and sources are arbitrary, then of one public step from an arbitrary state; '
        'every voltage and current is compared with those of the same step of the lines and networks built by hand through the public classes.')
R_T = 'each termination of the case puts the element of its connector, with the source at its node, between the conductor at that node and ground'
R_J = 'each junction of the case joins the conductors of its pairs through the resistances of their connectors, with the source at either node'
r = {k: nvar('Rc%d' % k) for k in range(1, 9)}
cp = {k: nvar('Cc%d' % k) for k in range(1, 5)}
ind_ = {k: nvar('Lc%d' % k) for k in range(1, 5)}
LEN_A, LEN_B = nvar('lenA'), nvar('lenB')
POSITIVE.update(x.atom for x in list(r.values()) + list(cp.values()) + list(ind_.values()) + [LEN_A, LEN_B] + [nvar(x) for x in ('Lwa', 'Cwa', 'Lwb', 'Cwb')])
FACTS += [10 ** 21 - x for x in cp.values()]


def noise(c):
    """parts of a case that no cable refers to"""
    return c.at(21, '7').at(12, '8').line(11, 21, 12).wire(40, 'unused').connector(41, 'Conn_R', resistance=nvar('Runused')).node(31, 21)


def one_wire(kinds, sources=()):
    """a wire with a connector at either end"""
    c = noise(Case().at(2, 'lenA').at(1, '0').line(1, 1, 2).wire(1, 'a'))
    for mid, (kd, vals) in zip((2, 3), kinds):
        c.connector(mid, kd, **vals)
    c.cable('A', 1, [1], 2, 3).bundle('B', '1')
    c.add('terminations', name='first', coordIds=[[1]]).add('terminations', name='last', coordIds=[[2]])
    for k, cid in enumerate(sources):
        driven(c, k, 32 + k, cid, k)
    return c


def wire_want(ctx, calls, kinds):
    def w(I):
        line = the_line(ctx, I, 'A', 'a', ZERO, LEN_A)
        b = make_bundle(ctx, I, {0: [line]}, 'B')
        out = []
        for nd, side, kd in ((1, 'S', kinds[0]), (2, 'L', kinds[1])):
            cs = [[x(ctx, I) if callable(x) else x for x in y] for y in calls if y[1] == nd]
            out.append(tube(ctx, I, {0: network(ctx, I, [(line, b, side, [(nd, 0, dict(connectorType=kd[0], **kd[1]))])], cs)}))
        return [b], out
    return w


def src(k):
    return lambda ctx, I: sine(ctx, I, k)


CABLE = dict(R=('Conn_R', dict(resistance=r[1])), R2=('Conn_R', dict(resistance=r[2])), short=('Conn_short', {}),
             sRLC=('Conn_sRLC', dict(resistance=r[3], inductance=ZERO, capacitance=num(10 ** 22))), C=('Conn_C', dict(capacitance=cp[1])),
             LCpRs=('Conn_LCpRs', dict(resistance=r[4], inductance=ind_[1], capacitance=cp[2])))
TO_GROUND = dict(R=('connect_to_ground', r[1]), R2=('connect_to_ground', r[2]), short=('short_to_ground',), sRLC=('connect_to_ground', r[3]), C=('connect_to_ground_C', cp[1]),
                 LCpRs=('connect_to_ground_LCpRs', r[4], ind_[1], cp[2]))


def wires(ctx):
    for a, b, s in (('R', 'R2', ()), ('R', 'R2', (1,)), ('R2', 'R', (2,)), ('R', 'R2', (2, 1)), ('short', 'R', ()), ('C', 'R', ()), ('C', 'R', (1,)), ('LCpRs', 'R', (1, 2)), ('R', 'LCpRs', ()), ('sRLC', 'short', (1,)),
                    ('R', 'C', (2,)), ('short', 'LCpRs', (2,))):
        kinds = (CABLE[a], CABLE[b])
        calls = []
        for nd, k in ((1, a), (2, b)):
            m, *vals = TO_GROUND[k]
            calls.append((m, nd) + tuple(vals) + ((src(list(s).index(nd)),) if nd in s else ()))
        t = 'wire, %s and %s%s' % (a, b, ', sources at %s' % list(s) if s else '')
        ctx.scenario(t, alike, ctx, t, one_wire(kinds, s), wire_want(ctx, calls, kinds), R_T)


MULTI = dict(connections=['Conn_R', 'Conn_C'], resistanceVector=[r[1], r[2]], capacitanceVector=[cp[1], cp[2]])
MULTI2 = dict(connections=['Conn_LCpRs', 'Conn_short'], resistanceVector=[r[3], r[4]], capacitanceVector=[cp[3], cp[4]], inductanceVector=[ind_[1], ind_[2]])
MULTI3 = dict(connections=['Conn_R', 'Conn_sRLC'], resistanceVector=[r[5], r[6]])
MULTI4 = dict(connections=['Conn_R', 'Conn_short'], resistanceVector=[r[7], r[8]])


def multi(first, last, terms, sources=(), rev=False):
    """a cable of two conductors; terms: coordIds of the terminations"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenA'))
    c.line(2, 3, 4).line(1, 1, 2) if not rev else c.line(1, 1, 2).line(2, 3, 4)
    c.connector(3, 'MultiwireConnector', **last).connector(2, 'MultiwireConnector', **first).wire(1, 'a', 2)
    c.cable('A', 1, [1, 2], 2, 3).bundle('B', '1 2')
    for k, t in enumerate(terms):
        c.add('terminations', name='t%d' % k, coordIds=t)
    for k, cid in enumerate(sources):
        driven(c, k, 32 + k, cid, k)
    return c


def multi_want(ctx, first, last, calls):
    def w(I):
        line = the_line(ctx, I, 'A', 'a', ZERO, LEN_A, 2)
        b = make_bundle(ctx, I, {0: [line]}, 'B')
        out = []
        for nds, side, kd in (((1, 3), 'S', first), ((2, 4), 'L', last)):
            cs = [[x(ctx, I) if callable(x) else x for x in y] for y in calls if y[1] in nds]
            cn = dict(connectorType='MultiwireConnector', **kd)
            out.append(tube(ctx, I, {0: network(ctx, I, [(line, b, side, [(nds[0], 0, cn), (nds[1], 1, cn)])], cs)}))
        return [b], out
    return w


def multis(ctx):
    one = [('connect_to_ground_R', 1, r[1]), ('connect_to_ground_C', 3, cp[2])]
    two = [('connect_to_ground_LCpRs', 2, r[3], ind_[1], cp[3]), ('short_to_ground', 4)]
    three = [('connect_to_ground_R', 2, r[5]), ('connect_to_ground_R', 4, r[6])]
    S = lambda t, c, w: ctx.scenario(t, alike, ctx, t, c, w, R_T)
    S('two conductors, R and C, LCpRs and short', multi(MULTI, MULTI2, [[[1, 3]], [[2, 4]]]), multi_want(ctx, MULTI, MULTI2, one + two))
    S('two conductors, each on its own', multi(MULTI, MULTI3, [[[1], [3]], [[2], [4]]]), multi_want(ctx, MULTI, MULTI3, one + three))
    S('two conductors, other order', multi(MULTI, MULTI3, [[[4, 2]], [[3, 1]]], rev=True), multi_want(ctx, MULTI, MULTI3, one + three))
    v = lambda call, k: call + (src(k),)
    S('two conductors, sources', multi(MULTI, MULTI3, [[[1, 3]], [[2, 4]]], (3, 2)), multi_want(ctx, MULTI, MULTI3, [one[0], v(one[1], 0), v(three[0], 1), three[1]]))
    S('two conductors, sources, each on its own', multi(MULTI, MULTI2, [[[3], [1]], [[4], [2]]], (1, 2)), multi_want(ctx, MULTI, MULTI2, [v(one[0], 0), one[1], v(two[0], 1), two[1]]))


def two_cables(jun, term=True, sources=(), a='R', b='R2', flip=False):
    """two wires end to end; the second may be drawn towards the first"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, 'lenA').at(4, 'lenB'))
    c.line(5, 1, 2).line(6, *((4, 3) if flip else (3, 4))).wire(1, 'a').wire(2, 'b')
    kd = [CABLE[a], CABLE[b]]
    c.connector(3, 'Conn_R', resistance=r[7]).connector(4, kd[0][0], **kd[0][1]).connector(5, kd[1][0], **kd[1][1]).connector(6, 'Conn_R', resistance=r[8])
    c.cable('A', 1, [5], 3, 4).cable('C', 2, [6], *((6, 5) if flip else (5, 6))).bundle('one', '5').bundle('two', '6')
    c.add('junctions', name='j', unitedCoordIds=[jun])
    if term:
        c.add('terminations', name='first', coordIds=[[1]]).add('terminations', name='last', coordIds=[[4]])
    for k, cid in enumerate(sources):
        driven(c, k, 32 + k, cid, k)
    return c


def cables_want(ctx, calls, flip=False):
    def w(I):
        la, lb = the_line(ctx, I, 'A', 'a', ZERO, LEN_A), the_line(ctx, I, 'C', 'b', *((LEN_B, LEN_A) if flip else (LEN_A, LEN_B)))
        ba, bb = make_bundle(ctx, I, {0: [la]}, 'one'), make_bundle(ctx, I, {0: [lb]}, 'two')
        cs = [[x(ctx, I) if callable(x) else x for x in y] for y in calls]
        j = network(ctx, I, [(la, ba, 'L', [(2, 0, end_of('Conn_R'))]), (lb, bb, 'L' if flip else 'S', [(3, 0, end_of('Conn_R'))])], [x for x in cs if x[1] in (2, 3)])
        t1 = network(ctx, I, [(la, ba, 'S', [(1, 0, end_of('Conn_R'))])], [('connect_to_ground', 1, r[7])] + [x for x in cs if x[1] == 1])
        t2 = network(ctx, I, [(lb, bb, 'S' if flip else 'L', [(4, 0, end_of('Conn_R'))])], [('connect_to_ground', 4, r[8])])
        return [ba, bb], [tube(ctx, I, {0: x}) for x in (j, t1, t2)]
    return w


def junctions(ctx):
    S = lambda t, c, w: ctx.scenario(t, alike, ctx, t, c, w, R_J)
    both = r[1] + r[2]
    S('junction', two_cables([2, 3]), cables_want(ctx, [('connect_nodes', 2, 3, both)]))
    S('junction of two ends', two_cables([3, 2], flip=True), cables_want(ctx, [('connect_nodes', 2, 3, both)], True))
    S('junction, source at the first node', two_cables([2, 3], sources=(2,)), cables_want(ctx, [('connect_nodes', 2, 3, both, src(0))]))
    S('junction, source at the second node', two_cables([2, 3], sources=(3,)), cables_want(ctx, [('connect_nodes', 2, 3, both, src(0))]))
    S('junction, shorts', two_cables([2, 3], a='short', b='short'), cables_want(ctx, [('short_nodes', 2, 3)]))
    S('junction, one short', two_cables([2, 3], a='short', b='R2'), cables_want(ctx, [('connect_nodes', 2, 3, r[2])]))
    S('junction, the other short', two_cables([3, 2], a='R', b='short'), cables_want(ctx, [('connect_nodes', 2, 3, r[1])]))
    S('junction, sRLC', two_cables([2, 3], a='sRLC', b='R2'), cables_want(ctx, [('connect_nodes', 2, 3, r[3] + r[2])]))


def multi_junction(ctx, pairs, R):
    """two cables of two conductors"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenA').at(5, 'lenA').at(6, 'lenB').at(7, 'lenA').at(8, 'lenB'))
    c.line(1, 1, 2).line(2, 3, 4).line(3, 5, 6).line(4, 7, 8)
    c.connector(2, 'MultiwireConnector', **MULTI3).connector(3, 'MultiwireConnector', **MULTI4).wire(1, 'a', 2).wire(6, 'b', 2)
    c.cable('A', 1, [1, 2], 2, 2).cable('C', 6, [4, 3], 3, 3).bundle('one', '1 2').bundle('two', '4 3')
    c.add('junctions', name='j', unitedCoordIds=pairs)

    def w(I):
        la, lb = the_line(ctx, I, 'A', 'a', ZERO, LEN_A, 2), the_line(ctx, I, 'C', 'b', LEN_A, LEN_B, 2)
        ba, bb = make_bundle(ctx, I, {0: [la]}, 'one'), make_bundle(ctx, I, {0: [lb]}, 'two')
        e = end_of('Conn_R')
        j = network(ctx, I, [(la, ba, 'L', [(2, 0, e), (4, 1, e)]), (lb, bb, 'S', [(7, 0, e), (5, 1, e)])], [('connect_nodes', p, q, x) for (p, q), x in zip(pairs, R)])
        return [ba, bb], [tube(ctx, I, {0: j})]
    return c, w


def nested(ctx, order, sources=()):
    """a shield around a cable of two conductors, all terminated"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenA').at(5, '0').at(6, 'lenA'))
    c.line(1, 1, 2).line(2, 3, 4).line(3, 5, 6).wire(1, 'a').wire(6, 'b', 2)
    c.connector(2, 'Conn_R', resistance=r[1]).connector(3, 'Conn_R', resistance=r[2]).connector(4, 'MultiwireConnector', **MULTI3).connector(5, 'MultiwireConnector', **MULTI4)
    c.cable('out', 1, [1], 2, 3).cable('in', 6, [2, 3], 4, 5).bundle('B', {'1': '2 3'})
    ts = [[[1]], [[3, 5]], [[2]], [[4, 6]]]
    for k in order:
        c.add('terminations', name='t%d' % k, coordIds=ts[k])
    for k, cid in enumerate(sources):
        driven(c, k, 32 + k, cid, k)

    def w(I):
        lo, li = the_line(ctx, I, 'out', 'a', ZERO, LEN_A), the_line(ctx, I, 'in', 'b', ZERO, LEN_A, 2)
        b = make_bundle(ctx, I, {0: [lo], 1: [li]}, 'B')
        e = end_of('Conn_R')
        s = lambda cid: (sine(ctx, I, list(sources).index(cid)),) if cid in sources else ()
        out = []
        for side, (o, i1, i2), (ro, r1, r2) in (('S', (1, 3, 5), (r[1], r[5], r[6])), ('L', (2, 4, 6), (r[2], r[7], None))):
            n0 = network(ctx, I, [(lo, b, side, [(o, 0, e)])], [('connect_to_ground', o, ro) + s(o)])
            n1 = network(ctx, I, [(li, b, side, [(i1, 0, e), (i2, 1, e)])], [('connect_to_ground_R', i1, r1) + s(i1), ('connect_to_ground_R', i2, r2) + s(i2) if r2 is not None else ('short_to_ground', i2)])
            out.append(tube(ctx, I, {0: n0, 1: n1}))
        return [b], out
    return c, w


def same_place(ctx, kind):
    """several terminations or junctions of one level at one place"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenB'))
    c.line(1, 1, 2).line(2, 3, 4).wire(1, 'a').wire(6, 'b').connector(2, 'Conn_R', resistance=r[1]).connector(3, 'Conn_R', resistance=r[2])
    c.connector(4, 'Conn_R', resistance=r[3]).connector(5, 'Conn_R', resistance=r[4])
    c.cable('A', 1, [1], 2, 4).cable('C', 6, [2], 3, 5).bundle('one', '1').bundle('two', '2')
    if kind == 'terminations':
        c.add('terminations', name='a', coordIds=[[1]]).add('terminations', name='b', coordIds=[[3]])
    else:
        c.add('terminations', name='ab', coordIds=[[1], [3]])
    driven(c, 0, 32, 3, 0)

    def w(I):
        la, lb = the_line(ctx, I, 'A', 'a', ZERO, LEN_A), the_line(ctx, I, 'C', 'b', ZERO, LEN_B)
        ba, bb = make_bundle(ctx, I, {0: [la]}, 'one'), make_bundle(ctx, I, {0: [lb]}, 'two')
        e = end_of('Conn_R')
        n1 = network(ctx, I, [(la, ba, 'S', [(1, 0, e)])], [('connect_to_ground', 1, r[1])])
        n2 = network(ctx, I, [(lb, bb, 'S', [(3, 0, e)])], [('connect_to_ground', 3, r[2], sine(ctx, I, 0))])
        return [ba, bb], [tube(ctx, I, {0: n1}), tube(ctx, I, {0: n2})]
    return c, w


def run(ctx):
    EXPLICIT_INVERSE[0] = 4
    wires(ctx)
    multis(ctx)
    junctions(ctx)
    S = lambda t, cw, rule: ctx.scenario(t, alike, ctx, t, *cw, rule)
    S('junction of two conductors', multi_junction(ctx, [[2, 7], [4, 5]], [r[5] + r[7], r[6]]), R_J)
    S('junction of two conductors, crossed', multi_junction(ctx, [[5, 2], [7, 4]], [r[5], r[6] + r[7]]), R_J)
    S('levels', nested(ctx, (0, 1, 2, 3), (3,)), R_T)
    S('levels, other order', nested(ctx, (3, 1, 0, 2), (2, 5)), R_T)
    S('two terminations at one place', same_place(ctx, 'terminations'), R_T)
    S('one termination of two cables', same_place(ctx, 'one'), R_T)
    return ctx.close(FLOOR, TECH, [R_T, R_J])
