"""Lumped resistance and conductance over a stretch of line."""
from checks.c10 import *

FLOOR = 40
TECH = ('Abstract interpretation of the region setters on a line with symbolic node positions, cell lengths and matrices, followed by one public step; '
        'voltages and currents are compared, cell by cell, with the update equations for the required distribution of the element.')
R_R = ('the resistance is spread over the length of the cells between the two nodes nearest to the given positions (one cell if they coincide), on the diagonal entry of the given conductor; '
       'every other entry and cell keeps its value')
R_G = 'the conductance is spread over the length between the two nodes nearest to the given positions and acts at those nodes and the ones between; a single node takes it over its cell'
VAL = nvar('value')
A_, B_ = ivar('A'), ivar('B')
TWO = num(2)


def nearest(I, u, where):
    """index of the node nearest to a position"""
    src = ('import numpy as np\n'
           'def nearest(u, p):\n    return np.argmin(np.apply_along_axis(np.linalg.norm, 1, u - p))\n')
    return I.call_value(reference(I, src, 'nearest'), [u, where], {})


def make(ctx, I, bundle):
    line = make_mtl(ctx, I, n=TWO)
    generalise(I, I.getattr(line, 'dt'), DT)
    if bundle:
        x = make_bundle(ctx, I, {0: [line]})
        return x, make_mtln(ctx, I, [x])
    return line, line


def vec(I, f):
    return symarr(I, 'pos', (num(3),), content=lambda i: f(i[0]))


def place(I, line, pos):
    """(argument, index of the nearest node) for the way a position is given"""
    kind, k = pos
    if kind == 'float':
        return nvar('len') / NX * k, k
    if kind == 'list':
        return pyval(I, [ZERO, ZERO, nvar('len') / NX * k]), k
    if kind == 'anywhere':
        z = nvar('z%s' % k)
        r = I.to_term(nearest(I, I.getattr(line, 'u'), vec(I, lambda i: eq0(i - 2) * z)))
        if r.atom is not None and r.atom.head == 'argmin':
            ARGMIN_NAMES[r.key] = r = ivar('nearest%s' % k)
        return z, r
    raise ValueError(kind)


def region(ctx, what, bundle, tag, start, end, lo, hi, fs, cond=1, point=False, at=None):
    """lo..hi: cells (resistance) or nodes (conductance) that take the element; at: cells of length that carry it"""
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        x, run = make(ctx, I, bundle)
        set_dt(I, run)
        if lo is None:
            lo, hi = place(I, x, start)[1], place(I, x, end)[1]
            fs, at = (lo - 1, hi - lo - 1, NX - 1 - hi), (lo, hi)
            if what == 'G':
                hi = hi + 1
    with facts(SMALL_DT, NX - 3, *fs):
        dn = lambda k: rd('dn', k)
        a = I.getattr(x, 'du_norm')
        I.put(cell_of(a), Content(lambda idx: dn(idx[0]) * eq0(idx[1] - idx[2])))
        set_pul(I, x)
        havoc(I, x, 'v')
        havoc(I, x, 'i')
        cut(I, x, 'v', 'i')
        p = place(I, x, start)[0]
        name = ('set_resistance_' if what == 'R' else 'add_conductance_') + ('at_point' if point else 'in_region')
        if point:
            ctx.call(I, x, name, p, num(cond), VAL)
        else:
            ctx.call(I, x, name, p, place(I, x, end)[0], num(cond), VAL)
        i0, v0 = snapshot(I, x, 'i'), snapshot(I, x, 'v')
        advance(ctx, I, run)
        i1, v1 = snapshot(I, x, 'i'), snapshot(I, x, 'v')
        eq = Eq(TWO, NX, dn)
        eq.v, eq.i = v0, i0
        eq.vs = eq.eT = eq.eL = lambda a, k, t: ZERO
        c0, c1 = at
        j = fresh('s')
        total = dn(c0) if is_zero(c1 - c0 - 1) else mksum(j, ZERO, c1 - c0, dn(c0 + P(j)))
        here = lambda k: (1 - lt0(k - lo)) * lt0(k - hi)
        other = eq.R if what == 'R' else eq.G
        val = lambda k, a, b: ite(here(k) * eq0(a - cond) * eq0(b - cond), VAL / total, other(k, a, b))
        if what == 'R':
            eq.R = val
        else:
            eq.G = val
        rule = R_R if what == 'R' else R_G
        last = NX - 1 if what == 'R' else NX
        outside = [('before', K_, (K_ - 1, lo - 1 - K_)), ('after', K_, (K_ - hi, NX - 1 - K_))]
        inside = [('inside', K_, (K_ - lo, hi - 1 - K_))]
        for lab, k, ks in inside + outside:
            with facts(*ks):
                if what == 'G' and lab == 'inside':
                    ks2 = (K_ - 1, NX - 1 - K_)
                else:
                    ks2 = ()
                with facts(*ks2):
                    if contradictory():
                        continue
                    for r in range(2):
                        c = num(r)
                        if what == 'G':
                            ctx.equal(I, '%s.voltage.%s.%d' % (tag, lab, r), definition(I, v1(c, k)), eq.v_inner(c, k), rule, sites(I, x)[0])
                        else:
                            ctx.equal(I, '%s.current.%s.%d' % (tag, lab, r), definition(I, i1(c, k)), eq.i_new(c, k, v1), rule, sites(I, x)[1])
        if what == 'R':
            with facts(K_ - 1, NX - 1 - K_):
                ctx.equal(I, tag + '.voltage', definition(I, v1(num(cond), K_)), eq.v_inner(num(cond), K_), rule, sites(I, x)[0])
        elif not bundle:
            for side, k in (('s', ZERO), ('l', NX)):
                for r in range(2):
                    ctx.equal(I, '%s.end %s.%d' % (tag, side, r), definition(I, v1(num(r), k)), eq.v_end(num(r), side), rule, sites(I, x)[0])


def run(ctx):
    f = lambda k: ('float', k)
    l = lambda k: ('list', k)
    AB = (A_ - 1, B_ - A_ - 1, NX - 1 - B_)
    for b in (False, True):
        t = 'bundle ' if b else 'line '
        ctx.scenario(t + 'R region', region, ctx, 'R', b, t + 'R region', f(A_), f(B_), A_, B_, AB, 1, False, (A_, B_))
        ctx.scenario(t + 'G region', region, ctx, 'G', b, t + 'G region', f(A_), f(B_), A_, B_ + 1, AB, 1, False, (A_, B_))
        ctx.scenario(t + 'R list', region, ctx, 'R', b, t + 'R region, list', l(A_), l(B_), A_, B_, AB, 0, False, (A_, B_))
        ctx.scenario(t + 'G list', region, ctx, 'G', b, t + 'G region, list', l(A_), l(B_), A_, B_ + 1, AB, 0, False, (A_, B_))
        ctx.scenario(t + 'R whole', region, ctx, 'R', b, t + 'R whole line', f(ZERO), f(NX), ZERO, NX, (), 0, False, (ZERO, NX))
        ctx.scenario(t + 'G whole', region, ctx, 'G', b, t + 'G whole line', f(ZERO), f(NX), ZERO, NX + 1, (), 0, False, (ZERO, NX))
        ctx.scenario(t + 'R one place', region, ctx, 'R', b, t + 'R one place', f(A_), f(A_), A_, A_ + 1, (A_ - 1, NX - 1 - A_), 1, False, (A_, A_ + 1))
        ctx.scenario(t + 'G one place', region, ctx, 'G', b, t + 'G one place', f(A_), f(A_), A_, A_ + 1, (A_ - 1, NX - 1 - A_), 1, False, (A_, A_ + 1))
        ctx.scenario(t + 'R at end', region, ctx, 'R', b, t + 'R at far end', f(NX), f(NX), NX - 1, NX, (), 1, False, (NX - 1, NX))
        ctx.scenario(t + 'G at end', region, ctx, 'G', b, t + 'G at far end', f(NX), f(NX), NX, NX + 1, (), 1, False, (NX - 1, NX))
    for b in (False, True):
        t = 'bundle ' if b else 'line '
        for w in 'RG':
            ctx.scenario(t + w + ' anywhere', region, ctx, w, b, t + w + ' between nodes', ('anywhere', 1), ('anywhere', 2), None, None, None)
    ctx.scenario('R point', region, ctx, 'R', False, 'R at point', f(A_), None, A_, A_ + 1, (A_ - 1, NX - 1 - A_), 1, True, (A_, A_ + 1))
    ctx.scenario('G point', region, ctx, 'G', False, 'G at point', f(A_), None, A_, A_ + 1, (A_ - 1, NX - 1 - A_), 1, True, (A_, A_ + 1))
    return ctx.close(FLOOR, TECH, [R_R, R_G])
