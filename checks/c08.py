"""A bundle is the block-diagonal assembly of its lines."""
from checks.c07 import *
from checks.c02 import R_V, R_I

FLOOR = 20
TECH = ('Abstract interpretation of bundle construction from lines with arbitrary per-cell matrices and common node positions, followed by one public time step; '
        'the step is compared with the telegrapher equations of the block-diagonal matrices, level by level and line by line.')
R_B = 'entry (p,q) of a bundle matrix is the entry of the line both conductors belong to, and zero between different lines; order: levels ascending, lines as given'
R_0 = 'a new bundle is at rest'


def line_with_matrices(ctx, I, n, t):
    line = make_mtl(ctx, I, t, n, NX, length=LEN, r=zeros(I, n), g=zeros(I, n))
    generalise(I, I.getattr(line, 'dt'), DT)
    a = I.getattr(line, 'du_norm')
    I.put(cell_of(a), Content(lambda idx: rd('dn', idx[0]) * eq0(idx[1] - idx[2])))
    havoc(I, line, 'u', 'u')
    havoc(I, line, 'du', 'du')
    for x in ('l', 'c', 'r', 'g'):
        havoc(I, line, x, x + t)
    return line


def block_eq(ns, tags):
    n = sum(ns, ZERO)
    eq = Eq(n, NX, lambda k: rd('dn', k))

    def blk(nm):
        def g(k, x, y):
            r, off = ZERO, ZERO
            for sz, t in zip(ns, tags):
                w = (1 - lt0(x - off)) * lt0(x - off - sz) * (1 - lt0(y - off)) * lt0(y - off - sz)
                if not is_zero(w):
                    r = r + w * rd(nm + t, k, x - off, y - off)
                off = off + sz
            return r
        return lambda k, x, y: g(topoly(k), topoly(x), topoly(y))
    eq.C, eq.L, eq.R, eq.G = blk('c'), blk('l'), blk('r'), blk('g')
    eq.vs = eq.eT = eq.eL = lambda a, k, t: ZERO
    return eq


def assembly(ctx, tag, ns, shape):
    I = ctx.interp()
    ns = [num(x) for x in ns]
    tags = 'abcd'[:len(ns)]
    n = sum(ns, ZERO)
    with facts(SMALL_DT, NX - 3):
        lines = [line_with_matrices(ctx, I, m, t) for m, t in zip(ns, tags)]
        levels, j = {}, 0
        for lv, cnt in enumerate(shape):
            levels[lv] = lines[j:j + cnt]
            j += cnt
        bd = make_bundle(ctx, I, levels)
        vi = [(x, I.getattr(bd, x)) for x in 'vi']
        for x, a in vi:
            with facts(K_, NX - 1 - K_, C_, n - 1 - C_):
                ctx.equal(I, '%s.%s at rest' % (tag, x), I.read(a, (C_, K_)), ZERO, R_0)
        nw = settle(ctx, I, bd)
        i0, v0 = snapshot(I, bd, 'i'), snapshot(I, bd, 'v')
        advance(ctx, I, nw)
        i1, v1 = snapshot(I, bd, 'i'), snapshot(I, bd, 'v')
        eq = block_eq(ns, tags)
        eq.v, eq.i = v0, i0
        for r in range(int(n.const)):
            c = num(r)
            with facts(K_ - 1, NX - 1 - K_):
                ctx.equal(I, '%s.voltage.%d' % (tag, r), definition(I, v1(c, K_)), eq.v_inner(c, K_), R_V + '; ' + R_B, sites(I, bd)[0])
            for lab, k, fs in regions(K_, NX - 1):
                with facts(*fs):
                    ctx.equal(I, '%s.current.%s.%d' % (tag, lab, r), definition(I, i1(c, k)), eq.i_new(c, k, v1), R_I + '; ' + R_B, sites(I, bd)[1])


def run(ctx):
    ctx.scenario('one line', assembly, ctx, 'one line', (2,), (1,))
    ctx.scenario('two levels', assembly, ctx, 'two levels', (1, 2, 1), (1, 2))
    ctx.scenario('three levels', assembly, ctx, 'three levels', (1, 1, 2), (1, 1, 1))
    ctx.scenario('unequal', assembly, ctx, 'unequal', (2, 1), (1, 1))
    if ctx.thorough:
        ctx.scenario('wide', assembly, ctx, 'wide', (2, 2, 1, 1), (1, 2, 1))
    return ctx.close(FLOOR, TECH, [R_B, R_V, R_I, R_0])
