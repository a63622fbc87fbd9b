"""A case file: lines, bundles and what is placed on them."""
from checks.c07 import empty_model
from checks.case import *
from checks.c17 import noise, r, LEN_A, LEN_B

FLOOR = 60
TECH = ('Abstract interpretation of the parser on case files of fixed topology whose lengths, matrices, transfer impedances and elements are arbitrary, then of one public step from an arbitrary state; '
        'every voltage and current is compared with those of the same step of the bundles built by hand through the public classes.')
R_L = 'each cable becomes the line with the matrices of its material, the points of its elements and the divisions it asks for'
R_B = 'each bundle has the levels, lines and conductors its nesting describes, in that order'
R_Z = 'the transfer impedance of each shield couples it with exactly the conductors directly inside it'
R_E = 'lumped elements and connector impedances act on the conductor and at the place they name'
LEN_M = nvar('lenM')
POSITIVE.update(x.atom for x in [LEN_M] + [nvar(x + y) for x in ('Lw', 'Cw') for y in 'abcde'] + [nvar('cte' + t) for t in 'ABD'])
_line = the_line


def case(elements, cables, bundles, extra=()):
    """elements: {id: coordinate ids}; cables: (name, material tag, conductors or None, element ids, ndiv, transfer impedance); bundles: (name, nesting)"""
    c = noise(Case().at(1, '0').at(2, 'lenA').at(3, '0').at(4, 'lenA').at(5, 'lenM').at(6, 'lenB').at(7, '0').at(8, 'lenA'))
    for e, ids in elements.items():
        c.line(e, *ids)
    for k, (name, tag, n, els, ndiv, zt) in enumerate(cables):
        kw = {}
        if zt is not None:
            kw['transferImpedance'] = zt
        c.wire(50 - k, tag, n, **kw)
    c.connector(2, 'Conn_R', resistance=r[1]).connector(3, 'Conn_R', resistance=r[2])
    for k, (name, tag, n, els, ndiv, zt) in reversed(list(enumerate(cables))):
        c.cable(name, 50 - k, els, 2, 3, ndiv)
    for name, nest in bundles:
        c.bundle(name, nest)
    for x in extra:
        x(c)
    return c


def place(I, z):
    return I.call_value(Ext('numpy.array'), [pyval(I, [ZERO, ZERO, z])], {})


def wanted(ctx, f):
    return lambda I: f(lambda *a, **k: _line(ctx, I, *a, **k), lambda levels, name: make_bundle(ctx, I, levels, name), I)


def zt(tag, direction='in', **kw):
    return empty_model(tag, direction, **kw)


def couple(ctx, I, bd, *entries):
    for ol, oc, il, ic, m in entries:
        ctx.call(I, bd, 'add_transfer_impedance', num(ol), pyval(I, [oc]), num(il), pyval(I, [ic]), pyval(I, jsonval(m)))


def lumped(mid, cable, cid, conductor, m):
    return lambda c: c.connector(mid, 'Dispersive', model=m).add('lumpedElements', materialId=mid, cable=cable, coordIds=[cid], conductor=conductor)


def cable_end(mid, cid, resistance, m):
    return lambda c: c.connector(mid, 'Conn_R', resistance=resistance, transferImpedance=m).add('cableEnds', name='e%d' % mid, materialId=mid, coordIds=[cid])


def run(ctx):
    S = lambda t, c, f, rule: ctx.scenario(t, alike, ctx, t, c, wanted(ctx, f), rule)
    A = ('A', 'a', None, [1], 3, None)
    S('wire', case({1: (1, 2)}, [A], [('B', '1')]), lambda L, B, I: ([B({0: [L('A', 'a', ZERO, LEN_A)]}, 'B')], []), R_L)
    S('wire drawn backwards', case({1: (2, 1)}, [A], [('B', '1')]), lambda L, B, I: ([B({0: [L('A', 'a', LEN_A, ZERO)]}, 'B')], []), R_L)
    S('two conductors', case({1: (1, 2), 4: (3, 4)}, [('A', 'a', 2, [1, 4], 2, None)], [('B', '1 4')]), lambda L, B, I: ([B({0: [L('A', 'a', ZERO, LEN_A, 2, 2)]}, 'B')], []), R_L)
    S('polyline', case({1: (1, 5, 6)}, [('A', 'a', None, [1], [2, 1], None)], [('B', '1')]), lambda L, B, I: ([B({0: [L('A', 'a', ZERO, LEN_B, None, None, (LEN_M,), [2, 1])]}, 'B')], []), R_L)
    S('two bundles', case({1: (1, 2), 2: (3, 6)}, [A, ('C', 'b', None, [2], 2, None)], [('one', '1'), ('two', '2')]),
      lambda L, B, I: ([B({0: [L('A', 'a', ZERO, LEN_A)]}, 'one'), B({0: [L('C', 'b', ZERO, LEN_B, None, 2)]}, 'two')], []), R_B)
    S('two bundles, listed the other way', case({2: (3, 6), 1: (1, 2)}, [('C', 'b', None, [2], 2, None), A], [('two', '2'), ('one', '1')]),
      lambda L, B, I: ([B({0: [L('C', 'b', ZERO, LEN_B, None, 2)]}, 'two'), B({0: [L('A', 'a', ZERO, LEN_A)]}, 'one')], []), R_B)
    els = {1: (1, 2), 12: (3, 4), 2: (7, 8), 3: (1, 4)}
    two = [('out', 'a', None, [1], 3, None), ('in', 'b', 2, [2, 3], 3, None)]
    S('shield without impedance', case(els, two, [('B', {'1': '2 3'})]), lambda L, B, I: ([B({0: [L('out', 'a', ZERO, LEN_A)], 1: [L('in', 'b', ZERO, LEN_A, 2)]}, 'B')], []), R_B)

    def shielded(entries):
        def f(L, B, I):
            bd = B({0: [L('out', 'a', ZERO, LEN_A)], 1: [L('in', 'b', ZERO, LEN_A, 2)]}, 'B')
            couple(ctx, I, bd, *entries)
            return [bd], []
        return f
    for d in ('in', 'out', 'both'):
        z = zt('A', d)
        cs = [two[0][:5] + (z,), two[1]]
        S('shield, impedance ' + d, case(els, cs, [('B', {'1': '2 3'})]), shielded([(0, 0, 1, 0, z), (0, 0, 1, 1, z)]), R_Z)
    z = zt('A', 'in', factor=nvar('fac'))
    POSITIVE.add(nvar('fac').atom)
    S('shield, other order and factor', case(els, [two[0][:5] + (z,), two[1]], [('B', {'1': '3 2'})]), shielded([(0, 0, 1, 0, z), (0, 0, 1, 1, z)]), R_Z)
    z = zt('A')
    def sheathed(L, B, I):
        bd = B({0: [L('out', 'a', ZERO, LEN_A)], 1: [L('early', 'b', ZERO, LEN_A), L('late', 'c', ZERO, LEN_A)]}, 'B')
        couple(ctx, I, bd, (0, 0, 1, 0, z), (0, 0, 1, 1, z))
        return [bd], []
    S('shield around two cables', case(els, [('late', 'c', None, [3], 3, None), ('out', 'a', None, [1], 3, z), ('early', 'b', None, [12], 3, None)], [('B', {'1': '12 3'})]), sheathed, R_Z)
    z2 = zt('B')

    def threefold(L, B, I):
        bd = B({0: [L('out', 'a', ZERO, LEN_A)], 1: [L('mid', 'b', ZERO, LEN_A)], 2: [L('in', 'c', ZERO, LEN_A)]}, 'B')
        couple(ctx, I, bd, (0, 0, 1, 0, z), (1, 0, 2, 0, z2))
        return [bd], []
    S('three levels', case(els, [('out', 'a', None, [1], 3, z), ('mid', 'b', None, [12], 3, z2), ('in', 'c', None, [2], 3, None)], [('B', {'1': {'12': '2'}})]), threefold, R_Z)

    def unequal(L, B, I):
        bd = B({0: [L('out', 'a', ZERO, LEN_A, None, 1)], 1: [L('in', 'b', ZERO, LEN_A, 2, 1), L('late', 'a', ZERO, LEN_A, None, 1)]}, 'B')
        couple(ctx, I, bd, (0, 0, 1, 0, z), (0, 0, 1, 1, z), (0, 0, 1, 2, z))
        return [bd], []
    S('shield around unequal cables', case(els, [('late', 'a', None, [12], 1, None), ('out', 'a', None, [1], 1, z), ('in', 'b', 2, [2, 3], 1, None)], [('B', {'1': '2 3 12'})]), unequal, R_Z)

    md = {'cte': nvar('cteD'), 'prop': nvar('propD'), 'poles': {'real': [], 'imag': []}, 'residues': {'real': [], 'imag': []}}

    def loaded(conductor, at, n=None):
        def f(L, B, I):
            line = L('A', 'a', ZERO, LEN_A, n)
            ctx.call(I, line, 'add_dispersive_connector', place(I, at), num(conductor), pyval(I, md))
            return [B({0: [line]}, 'B')], []
        return f
    S('lumped element at the near end', case({1: (1, 2)}, [A], [('B', '1')], [lumped(7, 'A', 1, 0, md)]), loaded(0, ZERO), R_E)
    S('lumped element on the second conductor', case({1: (1, 2), 4: (3, 4)}, [('A', 'a', 2, [1, 4], 3, None)], [('B', '1 4')], [lumped(7, 'A', 3, 1, md)]), loaded(1, ZERO, 2), R_E)
    S('lumped element of one of two cables', case({1: (1, 2), 2: (3, 6)}, [A, ('C', 'b', None, [2], 2, None)], [('two', '2'), ('one', '1')], [lumped(7, 'A', 1, 0, md)]),
      lambda L, B, I: ([B({0: [L('C', 'b', ZERO, LEN_B, None, 2)]}, 'two')] + loaded(0, ZERO)(L, B, I)[0], []), R_E)

    def ended(*ends):
        """ends: (place, resistance, conductor entries (side, inner conductor, impedance))"""
        def f(L, B, I):
            lo, li = L('out', 'a', ZERO, LEN_A), L('in', 'b', ZERO, LEN_A, 2)
            for at, res, _ in ends:
                p = pyval(I, [ZERO, ZERO, at])
                ctx.call(I, lo, 'set_resistance_in_region', p, p, ZERO, res)
            bd = B({0: [lo], 1: [li]}, 'B')
            couple(ctx, I, bd, (0, 0, 1, 0, z), (0, 0, 1, 1, z))
            for _, _, cs in ends:
                for side, ic, m in cs:
                    ctx.call(I, bd, 'set_connector_transfer_impedance', string(side), ZERO, pyval(I, [0]), ONE, pyval(I, [ic]), pyval(I, jsonval(m)))
            return [bd], []
        return f
    cs = [two[0][:5] + (z,), two[1]]
    S('connector at the near end', case(els, cs, [('B', {'1': '2 3'})], [cable_end(8, 1, r[5], z2)]), ended((ZERO, r[5], [('initial', 0, z2), ('initial', 1, z2)])), R_E)
    S('connector at the far end', case(els, cs, [('B', {'1': '2 3'})], [cable_end(8, 2, r[5], z2)]), ended((LEN_A, r[5], [('end', 0, z2), ('end', 1, z2)])), R_E)
    z3 = zt('D')
    S('connectors at both ends', case(els, cs, [('B', {'1': '2 3'})], [cable_end(9, 2, r[6], z3), cable_end(8, 1, r[5], z2)]),
      ended((LEN_A, r[6], [('end', 0, z3), ('end', 1, z3)]), (ZERO, r[5], [('initial', 0, z2), ('initial', 1, z2)])), R_E)

    def plain_end(mid, cid, resistance):
        return lambda c: c.connector(mid, 'Conn_R', resistance=resistance).add('cableEnds', name='e%d' % mid, materialId=mid, coordIds=[cid])

    def inner_end(at, outer):
        def f(L, B, I):
            lo, li = L('out', 'a', ZERO, LEN_A), L('in', 'b', ZERO, LEN_A, 2)
            p = pyval(I, [ZERO, ZERO, at])
            ctx.call(I, li, 'set_resistance_in_region', p, p, ZERO, r[6])
            if outer:
                q = pyval(I, [ZERO, ZERO, ZERO])
                ctx.call(I, lo, 'set_resistance_in_region', q, q, ZERO, r[5])
            bd = B({0: [lo], 1: [li]}, 'B')
            couple(ctx, I, bd, (0, 0, 1, 0, z), (0, 0, 1, 1, z))
            if outer:
                for ic in (0, 1):
                    ctx.call(I, bd, 'set_connector_transfer_impedance', string('initial'), ZERO, pyval(I, [0]), ONE, pyval(I, [ic]), pyval(I, jsonval(z2)))
            return [bd], []
        return f
    S('connector at the far end of an inner conductor', case(els, cs, [('B', {'1': '2 3'})], [plain_end(8, 8, r[6])]), inner_end(LEN_A, False), R_E)
    S('connectors of the shield and of an inner conductor', case(els, cs, [('B', {'1': '2 3'})], [cable_end(9, 1, r[5], z2), plain_end(8, 7, r[6])]), inner_end(ZERO, True), R_E)

    def middle(L, B, I):
        lm = L('mid', 'b', ZERO, LEN_A, None, 1)
        p = pyval(I, [ZERO, ZERO, ZERO])
        ctx.call(I, lm, 'set_resistance_in_region', p, p, ZERO, r[5])
        bd = B({0: [L('out', 'a', ZERO, LEN_A, None, 1)], 1: [lm], 2: [L('in', 'c', ZERO, LEN_A, None, 1)]}, 'B')
        couple(ctx, I, bd, (0, 0, 1, 0, z), (1, 0, 2, 0, z2))
        ctx.call(I, bd, 'set_connector_transfer_impedance', string('initial'), ONE, pyval(I, [0]), num(2), pyval(I, [0]), pyval(I, jsonval(z3)))
        return [bd], []
    S('connector of the inner shield', case(els, [('out', 'a', None, [1], 1, z), ('mid', 'b', None, [12], 1, z2), ('in', 'c', None, [2], 1, None)], [('B', {'1': {'12': '2'}})], [cable_end(8, 3, r[5], z3)]), middle, R_E)
    return ctx.close(FLOOR, TECH, [R_L, R_B, R_Z, R_E])
