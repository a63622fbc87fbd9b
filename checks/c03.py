"""Terminations of a single line"""
from checks.c02 import *
from checks.c06 import simple_line, zeros, LEN, H

FLOOR = 20
R_Z = 'scalar, vector, row and column end impedances: the impedance of each conductor is its own entry'


def forms(ctx, tag, kw, zs, zl, n=2, nx=None):
    """the different ways to give the end impedances, two coupled conductors"""
    I = ctx.interp()
    n = num(n)
    nx = NX if nx is None else num(nx)
    with facts(NX - 2):
        args = kw(I)
        line = make_mtl(ctx, I, n=n, nx=nx, **args)
        dn = set_geometry(I, line)
        set_pul(I, line)
        state(I, line, True, False)
        I.setattr(line, 'time', T)
        set_dt(I, line)
        advance(ctx, I, line)
        eq = Eq(n, nx, dn, zs, zl)
        eq.eT = eq.eL = lambda a, k, t: ZERO
        v = I.getattr(line, 'v')
        for r in range(int(n.const)):
            c = num(r)
            ctx.equal(I, '%s.near-end.%d' % (tag, r), I.read(v, (c, ZERO)), eq.v_end(c, 's'), R_S + '; ' + R_Z, sites(I, line)[0])
            ctx.equal(I, '%s.far-end.%d' % (tag, r), I.read(v, (c, nx)), eq.v_end(c, 'l'), R_L + '; ' + R_Z, sites(I, line)[0])


def run(ctx):
    ctx.scenario('single line', line_scenario, ctx, 'line', True, False, False, True)
    zs, zl = nvar('zs'), nvar('zl')
    row = lambda I: dict(Zs=symarr(I, 'zsr', (ONE, num(2)), content=lambda i: rd('Zs', i[1])), Zl=symarr(I, 'zlr', (ONE, num(2)), content=lambda i: rd('Zl', i[1])))
    col = lambda I: dict(Zs=symarr(I, 'zsc', (num(2), ONE), content=lambda i: rd('Zs', i[0])), Zl=symarr(I, 'zlc', (num(2), ONE), content=lambda i: rd('Zl', i[0])))
    vec = lambda I: dict(Zs=symarr(I, 'Zs', (num(2),)), Zl=symarr(I, 'Zl', (num(2),)))
    fl = lambda I: dict(Zs=zs, Zl=zl)
    s, l = (lambda a: rd('Zs', a)), (lambda a: rd('Zl', a))
    ctx.scenario('vector', forms, ctx, 'vector', vec, s, l)
    ctx.scenario('row', forms, ctx, 'row', row, s, l)
    ctx.scenario('column', forms, ctx, 'column', col, s, l)
    ctx.scenario('scalars', forms, ctx, 'scalars', fl, lambda a: zs, lambda a: zl)
    ctx.scenario('ideal source, ideal short', forms, ctx, 'zero', lambda I: dict(Zs=ZERO, Zl=ZERO), lambda a: ZERO, lambda a: ZERO)
    ctx.scenario('default', forms, ctx, 'default', lambda I: dict(Zs=None, Zl=None), lambda a: ZERO, lambda a: ZERO)
    ctx.scenario('three conductors', forms, ctx, 'three', lambda I: dict(Zs=symarr(I, 'Zs', (num(3),)), Zl=symarr(I, 'Zl', (num(3),))), s, l, 3)
    ctx.scenario('one cell', forms, ctx, 'one cell', vec, s, l, 2, 1)
    return ctx.close(FLOOR, TECH, [R_S, R_L, R_Z])
