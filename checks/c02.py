"""The line update equations (properties C02, C03, C04)."""
from checks.lines import *

FLOOR = 9
TECH = ('Abstract interpretation of one public run of one time step into closed dependence terms over symbolic per-cell matrices and state '
        '(gated value numbering with summarised loops; nothing is executed), compared region by region with the discrete telegrapher equations.')
R_V = 'inner nodes: (C/dt+G/2) v_new = (C/dt-G/2) v_old - (i_k - i_{k-1})/dual cell length - transverse-field increment'
R_I = 'cells: (L/dt+R/2) i_new = (L/dt-R/2) i_old - (dv_new + d(e_T))/cell length + mean(e_L)'
R_S = 'near end: (Zs h (C/dt+G/2)+1) v_new = (Zs h (C/dt-G/2)-1) v_old - 2 Zs i + sources(t)+sources(t-dt) - field term'
R_L = 'far end: the same with Zl and the current leaving the line'
R_F = 'with no impressed field a bundle end driven by no network keeps its voltage'


def state(I, line, sources, fields):
    havoc(I, line, 'v')
    havoc(I, line, 'i')
    if sources and has_attr(I, line, 'v_sources'):
        havoc(I, line, 'v_sources', kind='fun')
    if fields:
        havoc(I, line, 'e_T', kind='fun')
        havoc(I, line, 'e_L', kind='fun')


def equations(I, line, dn, sources, fields):
    eq = Eq(N, NX, dn)
    z = lambda a, k, t: ZERO
    if not sources:
        eq.vs = z
    if not fields:
        eq.eT = eq.eL = z
    return eq


def single_line(ctx, sources, fields):
    I = ctx.interp()
    line = make_mtl(ctx, I)
    dn = set_geometry(I, line)
    set_pul(I, line)
    state(I, line, sources, fields)
    I.setattr(line, 'time', T)
    set_dt(I, line)
    advance(ctx, I, line)
    return I, line, equations(I, line, dn, sources, fields)


def bundle(ctx, fields):
    I = ctx.interp()
    line = make_mtl(ctx, I)
    set_geometry(I, line)
    b = make_bundle(ctx, I, {0: [line]})
    dn = set_geometry(I, b)
    set_pul(I, b)
    state(I, b, False, fields)
    nw = make_mtln(ctx, I, [b])
    I.setattr(nw, 'time', T)
    set_dt(I, nw)
    advance(ctx, I, nw)
    return I, b, equations(I, b, dn, False, fields)


def check_line(ctx, I, line, eq, tag, inner=True, ends=False):
    v, i = I.getattr(line, 'v'), I.getattr(line, 'i')
    sv, si = sites(I, line)
    with facts(C_, N - 1 - C_):
        if inner:
            with facts(K_ - 1, NX - 1 - K_):
                ctx.equal(I, tag + '.voltage.inner', I.read(v, (C_, K_)), eq.v_inner(C_, K_), R_V, sv)
            vn = lambda a, k: I.read(v, (a, k))
            for lab, k, fs in regions(K_, NX - 1):
                with facts(*fs):
                    ctx.equal(I, tag + '.current.' + lab, I.read(i, (C_, k)), eq.i_new(C_, k, vn), R_I, si)
        if ends:
            ctx.equal(I, tag + '.voltage.near-end', I.read(v, (C_, ZERO)), eq.v_end(C_, 's'), R_S, sv)
            ctx.equal(I, tag + '.voltage.far-end', I.read(v, (C_, NX)), eq.v_end(C_, 'l'), R_L, sv)


def line_scenario(ctx, tag, sources, fields, inner, ends):
    with facts(NX - 2, N - 1):
        I, line, eq = single_line(ctx, sources, fields)
        check_line(ctx, I, line, eq, tag, inner, ends)


def bundle_scenario(ctx, tag, fields):
    with facts(NX - 2, N - 1):
        I, b, eq = bundle(ctx, fields)
        check_line(ctx, I, b, eq, tag)
        v = I.getattr(b, 'v')
        with facts(C_, N - 1 - C_):
            for lab, k in (('near', ZERO), ('far', NX)):
                ctx.equal(I, '%s.voltage.%s-end-unconnected' % (tag, lab), I.read(v, (C_, k)), eq.v(C_, k), R_F, sites(I, b)[0])


def run(ctx):
    ctx.scenario('single line', line_scenario, ctx, 'line', False, False, True, False)
    ctx.scenario('bundle', bundle_scenario, ctx, 'bundle', False)
    return ctx.close(FLOOR, TECH, [R_V, R_I])
