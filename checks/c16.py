"""Networks and the lines they join: right conductor, end and level."""
from checks.c14 import *

FLOOR = 30
TECH = ('Abstract interpretation of networks of one or two levels joining bundles of several lines and levels (small concrete layouts, symbolic matrices, lengths, fields, sources), '
        'over public time steps; node voltages and the end currents of every conductor are compared with the coupled equations.')
R_N = ('the voltage of each conductor at the joined end is that of its node: charge on the capacitance of the own line with the own cell length, elements of the node, twice the current of the '
       'adjacent cell of that very conductor (leaving at the near end, arriving at the far end), transverse field at that node')
R_I = 'the currents are updated from these new end voltages, those of every other conductor from its own'
R2, R3 = nvar('Rtwo'), nvar('Rthree')


def layout(ctx, tag, bundles, tubes, steps=1, fields=False, uneven=False):
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        m = Model(ctx, I, bundles, uneven)
        ts = [[m.network(parts, els) for parts, els in levels] for levels in tubes]
        m.run(tag, ts, steps, R_N, True, fields)


def run(ctx):
    EXPLICIT_INVERSE[0] = 4
    S = lambda name, *a: ctx.scenario(name, layout, ctx, name, *a)
    G, B = ground, between
    # one bundle, both ends
    S('far end of two conductors', {'a': [[2]]}, [[([('a', 0, 0, 'L', [(3, 0, 'R'), (4, 1, 'R')])], [G('R', R_, node=3), G('R', R2, node=4, src=None)])]], 2, True)
    S('given in another order', {'a': [[2]]}, [[([('a', 0, 0, 'S', [(7, 1, 'R'), (2, 0, 'R')])], [G('R', R_, node=2), G('R', R2, node=7, src=None)])]], 1, True)
    # two bundles joined
    S('junction near and far', {'a': [[1]], 'b': [[1]]},
      [[([('a', 0, 0, 'L', [(0, 0, 'R')]), ('b', 0, 0, 'S', [(1, 0, 'R')])], [B(0, 1, R_)])]], 1, True)
    S('junction of near ends', {'a': [[1]], 'b': [[1]]},
      [[([('b', 0, 0, 'S', [(5, 0, 'R')]), ('a', 0, 0, 'S', [(2, 0, 'R')])], [B(2, 5, R_, None), G('R', R2, node=5)])]], 2)
    S('junction, crossed conductors', {'a': [[2]], 'b': [[2]]},
      [[([('a', 0, 0, 'L', [(0, 0, 'R'), (1, 1, 'R')]), ('b', 0, 0, 'S', [(2, 1, 'R'), (3, 0, 'R')])], [B(0, 2, R_, None), B(1, 3, R2)])]], 1)
    # levels
    S('two levels', {'a': [[1], [2]]},
      [[([('a', 0, 0, 'S', [(0, 0, 'R')])], [G('R', R_, node=0, src=None)]),
        ([('a', 1, 0, 'S', [(0, 1, 'R'), (1, 0, 'R')])], [G('R', R2, node=0), G('R', R3, node=1, src=None)])]], 1, True)
    S('second line of a level', {'a': [[1], [2, 1]]},
      [[([('a', 0, 0, 'L', [(0, 0, 'R')])], [G('R', R_, node=0, src=None)]),
        ([('a', 1, 0, 'L', [(1, 0, 'R'), (2, 1, 'R')]), ('a', 1, 1, 'L', [(0, 0, 'R')])], [G('R', R2, node=0), G('R', R3, node=1, src=None), G('R', nvar('Rfour'), node=2, src=None)])]], 1, True)
    S('third level', {'a': [[1], [1, 1], [2]]},
      [[([('a', 0, 0, 'S', [(0, 0, 'R')])], []), ([('a', 1, 1, 'S', [(0, 0, 'R')])], []),
        ([('a', 2, 0, 'S', [(0, 0, 'R'), (1, 1, 'R')])], [B(0, 1, R_)])]], 1, True)
    # a network at each end
    S('both ends', {'a': [[1]]}, [[([('a', 0, 0, 'S', [(0, 0, 'R')])], [G('R', R_, node=0)])], [([('a', 0, 0, 'L', [(0, 0, 'R')])], [G('R', R2, node=0, src='vtwo')])]], 2, True)
    S('ring', {'a': [[2]]}, [[([('a', 0, 0, 'S', [(0, 0, 'R'), (1, 1, 'R')])], [G('R', R_, node=0), G('R', R2, node=1, src=None)])],
                             [([('a', 0, 0, 'L', [(0, 0, 'R'), (1, 1, 'R')])], [B(0, 1, R3)])]], 1)
    S('uneven lines', {'a': [[1], [1]], 'b': [[1]]},
      [[([('a', 0, 0, 'L', [(0, 0, 'R')]), ('b', 0, 0, 'S', [(1, 0, 'R')])], [B(0, 1, R_, None)]), ([('a', 1, 0, 'L', [(0, 0, 'R')])], [G('R', R2, node=0)])]], 1, True, True)
    return ctx.close(FLOOR, TECH, [R_N, R_I])
