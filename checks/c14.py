"""Junctions and terminations: the elements between nodes and ground and between nodes."""
from checks.c06 import *

FLOOR = 20
TECH = ('Abstract interpretation of Network construction, the connect_* calls and up to three public time steps from rest with arbitrary sources; '
        'every node voltage is compared with the solution of the node equations written for the elements connected.')
R_K = ('half-cell charge: (cell length) C (v_new - v_old)/dt = branch currents (new + old) - 2 line currents leaving - (cell length) C change of the transverse field term/dt, '
       'with every branch current that of the element connected')


def NOSRC(t):
    return ZERO


class Branch:
    """current into the node as an affine function of new node voltages"""


class NetSpec:
    """the node equations for n nodes; cap(a, b) = capacitance between nodes in F/m"""

    def __init__(self, n, cap, h=ONE):
        self.n, self.cap, self.h = n, cap, h
        self.ground = []         # (node, G, source)
        self.caps = []           # (node, C, source)
        self.rlc = []            # [node, R, L, C, source]
        self.between = []        # (node1, node2, G, source)

    def start(self):
        z = [ZERO] * self.n
        self.V = [list(z)]
        self.X = [[(ZERO, ZERO) for _ in self.rlc]]

    def step(self, T, dt, cur, dE, Vold=None):
        """new node voltages; cur: currents leaving into the lines, dE(node): change of transverse term"""
        n, h = self.n, self.h
        V = self.V[-1]
        Vp = self.V[-2] if len(self.V) > 1 else [ZERO] * n
        A = [[h * self.cap(a, b) / dt for b in range(n)] for a in range(n)]
        rhs = [sum((h * self.cap(a, b) / dt * (V[b] - dE(b)) for b in range(n)), ZERO) - 2 * cur(a) for a in range(n)]
        for (a, G, s) in self.ground:
            A[a][a] = A[a][a] + G
            rhs[a] = rhs[a] + G * (s(T) + s(T - dt) - V[a])
        for (a, C, s) in self.caps:
            # i = C d(s - v)/dt, backward difference at the new and at the old time
            A[a][a] = A[a][a] + C / dt
            rhs[a] = rhs[a] + C / dt * (V[a] + s(T) - s(T - dt)) + C / dt * (s(T - dt) - s(T - 2 * dt) - V[a] + Vp[a])
        for (a, b, G, s) in self.between:
            for x, y, sg in ((a, b, 1), (b, a, -1)):
                A[x][x] = A[x][x] + G
                A[x][y] = A[x][y] - G
                rhs[x] = rhs[x] + G * (sg * (s(T) + s(T - dt)) - V[x] + V[y])
        m = len(self.rlc)
        N = n + 2 * m
        big = [[ZERO] * N for _ in range(N)]
        for a in range(n):
            for b in range(n):
                big[a][b] = A[a][b]
        rb = rhs + [ZERO] * (2 * m)
        for j, (a, R, L, C, s) in enumerate(self.rlc):
            u, w = n + 2 * j, n + 2 * j + 1
            xu, xw = self.X[-1][j]
            # i = (s + u - v)/R: u voltage over C and L in parallel, w = - current of L
            big[a][a] = big[a][a] + ONE / R
            big[a][u] = big[a][u] - ONE / R
            rb[a] = rb[a] + (s(T) + s(T - dt) + xu - V[a]) / R
            big[u][a] = -dt / (R * C)
            big[u][u] = 1 + dt / (R * C)
            big[u][w] = -dt / C
            rb[u] = xu - dt / (R * C) * s(T)
            big[w][u] = dt / L
            big[w][w] = ONE
            rb[w] = xw
        sol = [self.solve(big, rb, N, a) for a in range(N)]
        self.V.append(sol[:n])
        self.X.append([(sol[n + 2 * j], sol[n + 2 * j + 1]) for j in range(m)])
        return sol[:n]

    def solve(self, A, b, n, a):
        def at(f):
            def g(*idx):
                t = ZERO
                for pos in range(n ** len(idx)):
                    ps = [(pos // n ** q) % n for q in range(len(idx))]
                    x = f
                    for p in ps:
                        x = x[p]
                    w = ONE
                    for p, i in zip(ps, idx):
                        w = w * eq0(topoly(i) - p)
                    if not is_zero(x) and not is_zero(w):
                        t = t + w * x
                return t
            return g
        Af, bf = at(A), at(b)
        return ssum(lambda k: matinv(num(n), Af, num(a), k) * bf(k), num(n))


def make_network(ctx, I, parts, levels=None):
    """parts: (line, bundle, side, [(node, conductor, connector)])"""
    d = {}
    for line, bd, side, conns in parts:
        d[line] = {'side': string(side), 'bundle': bd, 'connections': [[num(n), num(c), pyval(I, conn)] for n, c, conn in conns]}
    return I.call_value(ctx.cls(I, 'networks', 'Network'), [pyval(I, d)], {})


def levelled(ctx, I, nws):
    return I.call_value(ctx.cls(I, 'networks', 'NetworkD'), [pyval(I, dict(enumerate(nws)))], {})


CONN = {'R': {'connectorType': 'Conn_R'}, 'C': {'connectorType': 'Conn_C'}, 'LCpRs': {'connectorType': 'Conn_LCpRs'}}


def conn(kind):
    d = CONN[kind]
    return {k: (string(v) if isinstance(v, str) else v) for k, v in d.items()}


def source(I, name):
    return rd(name, kind='fun')


R_, C2_, L2_ = nvar('Rnw'), nvar('Cnw'), nvar('Lnw')
for x_ in (R_, C2_, L2_, nvar('Rtwo'), nvar('Rthree'), nvar('Rfour'), nvar('Cthree')):
    POSITIVE.add(x_.atom)


class Model:
    """what the user describes: bundles of levels of lines, networks of nodes at line ends"""

    def __init__(self, ctx, I, bundles, uneven=False):
        self.ctx, self.I, self.uneven = ctx, I, uneven
        self.lines, self.bd, self.first, self.n, self.h = {}, {}, {}, {}, {}
        for b, levels in bundles.items():
            h = nvar('len' + b) / NX
            POSITIVE.add(nvar('len' + b).atom)
            objs, off = {}, 0
            for lv, counts in enumerate(levels):
                objs[lv] = []
                for k, n in enumerate(counts):
                    t = '%s%d%d' % (b, lv, k)
                    line = self.line(n, t, b)
                    self.lines[b, lv, k] = (line, t)
                    self.first[b, lv, k] = off
                    off += n
                    objs[lv].append(line)
            if uneven:
                h = lambda k, b=b: rd('dn' + b, k)
                for lv in objs:
                    for line in objs[lv]:
                        a = I.getattr(line, 'du_norm')
                        I.put(cell_of(a), Content(lambda idx, h=h: h(idx[0]) * eq0(idx[1] - idx[2])))
            else:
                h = lambda k, h=h: h
            self.n[b], self.h[b] = off, h
            self.bd[b] = make_bundle(ctx, I, objs, 'bundle ' + b)
        self.nets = []

    def line(self, n, t, b):
        ctx, I = self.ctx, self.I
        z = zeros(I, num(n))
        line = make_mtl(ctx, I, t, num(n), NX, length=nvar('len' + b), r=z, g=z)
        generalise(I, I.getattr(line, 'dt'), DT)
        if self.uneven:
            havoc(I, line, 'c', 'c' + t)
        return line

    def network(self, parts, elements):
        """parts: (bundle, level, line, side, [(node, conductor, connector kind)]); elements: (call, spec) with node numbers"""
        I = self.I
        args, nodes = [], []
        for b, lv, k, side, conns in parts:
            line, t = self.lines[b, lv, k]
            args.append((line, self.bd[b], side, [(n, c, conn(kd)) for n, c, kd in conns]))
            nodes += [(n, b, t, c, self.first[b, lv, k] + c, side) for n, c, kd in conns]
        nw = make_network(self.ctx, I, args)
        nodes.sort()
        at = {x[0]: i for i, x in enumerate(nodes)}

        def cap(i, j):
            (_, b, t, c, _, s), (_, b2, t2, c2, _, s2) = nodes[i], nodes[j]
            if (b, t, s) != (b2, t2, s2):
                return ZERO
            C = rd('c' + t, ZERO if s == 'S' else NX, num(c), num(c2)) if self.uneven else rd('Cm' + t, num(c), num(c2))
            return self.h[b](ZERO if s == 'S' else NX - 1) * C
        spec = NetSpec(len(nodes), cap)
        for call_, sp in elements:
            call_(self.ctx, I, nw)
            sp(spec, at)
        spec.start()
        self.nets.append((nw, nodes, spec))
        return nw

    def run(self, tag, tubes, steps, rule, currents=False, fields=False, dts=None):
        ctx, I = self.ctx, self.I
        nt = make_mtln(ctx, I, list(self.bd.values()), [levelled(ctx, I, t) for t in tubes])
        dt = lambda k: dts[k] if dts else DT
        set_dt(I, nt, dt(0))
        for b, bd in self.bd.items():
            havoc(I, bd, 'e_L', 'eL' + b, 'fun')
            if fields:
                havoc(I, bd, 'e_T', 'eT' + b, 'fun')
            cut(I, bd, 'i')
        T = nvar('t0')
        I.setattr(nt, 'time', T)
        for k in range(steps):
            i0 = {b: snapshot(I, bd, 'i') for b, bd in self.bd.items()}
            v0 = {b: snapshot(I, bd, 'v') for b, bd in self.bd.items()}
            if dts:
                set_dt(I, nt, dt(k))
                for bd in self.bd.values():
                    set_dt(I, bd, dt(k))
            ctx.call(I, nt, 'run_until', dt(k) * 1)
            v1 = {b: snapshot(I, bd, 'v') for b, bd in self.bd.items()}
            i1 = {b: snapshot(I, bd, 'i') for b, bd in self.bd.items()}
            eT = lambda b, c, e, t: rd_call('eT' + b, c, e, t) if fields else ZERO
            for m, (nw, nodes, spec) in enumerate(self.nets):
                end = lambda a: ZERO if nodes[a][5] == 'S' else NX
                cell = lambda a: ZERO if nodes[a][5] == 'S' else NX - 1
                sg = lambda a: 1 if nodes[a][5] == 'S' else -1
                if k:
                    spec.V[-1] = [v0[nodes[a][1]](num(nodes[a][4]), end(a)) for a in range(spec.n)]
                want = spec.step(T, dt(k), lambda a: sg(a) * i0[nodes[a][1]](num(nodes[a][4]), cell(a)),
                                 lambda a: eT(nodes[a][1], nodes[a][4], end(a), T) - eT(nodes[a][1], nodes[a][4], end(a), T - dt(k)))
                for a in range(spec.n):
                    ctx.equal(I, '%s.step%d.network%d.node%s' % (tag, k + 1, m, nodes[a][0]), v1[nodes[a][1]](num(nodes[a][4]), end(a)), want[a], rule)
            if currents:
                for b, bd in self.bd.items():
                    eq = Eq(num(self.n[b]), NX, self.h[b])
                    blk = self.blocks(b)
                    eq.L = lambda q, x, y, blk=blk: blk('Lm', x, y)
                    eq.G = eq.R = lambda q, x, y: ZERO
                    eq.i = i0[b]
                    eq.T, eq.dt = T, dt(k)
                    eq.eT = lambda c, q, t, b=b: rd_call('eT' + b, c, q, t) if fields else ZERO
                    eq.eL = lambda c, q, t, b=b: rd_call('eL' + b, c, q, t)
                    for lab, q in (('near', ZERO), ('far', NX - 1)):
                        for c in range(self.n[b]):
                            ctx.equal(I, '%s.step%d.%s.current.%s.%d' % (tag, k + 1, b, lab, c), definition(I, i1[b](num(c), q)), eq.i_new(num(c), q, v1[b]), rule)
            T = T + dt(k)

    def blocks(self, b):
        ls = [(self.first[x], self.lines[x][1], x) for x in self.lines if x[0] == b]
        sizes = sorted(ls)
        ends = [f for f, _, _ in sizes[1:]] + [self.n[b]]

        def blk(nm, x, y):
            x, y = topoly(x), topoly(y)
            r = ZERO
            for (f, t, _), e in zip(sizes, ends):
                w = (1 - lt0(x - f)) * lt0(x - e) * (1 - lt0(y - f)) * lt0(y - e)
                if not is_zero(w):
                    r = r + w * rd(nm + t, x - f, y - f)
            return r
        return blk


def rd_call(nm, c, k, t):
    return fcall(nm, topoly(c), topoly(k))(t)


def ground(kind, *vals, node=0, src='vnw'):
    """one element to ground: (call, spec)"""
    m = 'connect_to_ground' + ('_' + kind if kind else '')

    def c(ctx, I, nw):
        ctx.call(I, nw, m, num(node), *(vals + ((source(I, src),) if src else ())))

    def sp(spec, at):
        s = (lambda t: call(rd(src, kind='fun'), [t])) if src else NOSRC
        if kind in ('', 'R'):
            spec.ground.append((at[node], ONE / vals[0], s))
        elif kind == 'C':
            spec.caps.append((at[node], vals[0], s))
        else:
            spec.rlc.append((at[node],) + vals + (s,))
    return c, sp


def between(a, b, R, src='vnw'):
    def c(ctx, I, nw):
        ctx.call(I, nw, 'connect_nodes', num(a), num(b), R, *((source(I, src),) if src else ()))
    s = (lambda t: call(rd(src, kind='fun'), [t])) if src else NOSRC
    return c, lambda spec, at: spec.between.append((at[a], at[b], ONE / R, s))


def short(*nodes):
    def c(ctx, I, nw):
        ctx.call(I, nw, 'short_nodes' if len(nodes) == 2 else 'short_to_ground', *[num(x) for x in nodes])
    G = num(10 ** 10)

    def sp(spec, at):
        if len(nodes) == 2:
            spec.between.append((at[nodes[0]], at[nodes[1]], G, NOSRC))
        else:
            spec.ground.append((at[nodes[0]], G, NOSRC))
    return c, sp


def one_end(ctx, tag, kinds, elements, steps=2, side='S'):
    """a bundle ended by a network"""
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        m = Model(ctx, I, {'a': [[len(kinds)]]})
        nw = m.network([('a', 0, 0, side, [(k, k, kd) for k, kd in enumerate(kinds)])], elements)
        m.run(tag, [[nw]], steps, R_K)


def run(ctx):
    EXPLICIT_INVERSE[0] = 4
    S = lambda name, kinds, els, steps=2, side='S': ctx.scenario(name, one_end, ctx, name, kinds, els, steps, side)
    R2 = nvar('Rtwo')
    S('source behind R', ['R'], [ground('R', R_)])
    S('R', ['R'], [ground('R', R_, src=None)], 2, 'L')
    S('source behind R, general call', ['R'], [ground('', R_)])
    S('source behind C', ['C'], [ground('C', C2_)], 3)
    S('C', ['C'], [ground('C', C2_, src=None)], 3)
    S('source behind LCpRs', ['LCpRs'], [ground('LCpRs', R_, L2_, C2_)], 2)
    S('LCpRs', ['LCpRs'], [ground('LCpRs', R_, L2_, C2_, src=None)], 3, 'L')
    S('short', ['R'], [short(0)])
    S('R and C in parallel', ['C'], [ground('R', R_, src=None), ground('C', C2_)])
    S('two R in parallel', ['R'], [ground('R', R_), ground('R', R2, src=None)])
    S('R between', ['R', 'R'], [between(0, 1, R_), ground('R', R2, src=None)])
    S('R between, no source', ['R', 'R'], [between(1, 0, R_, None), ground('R', R2)])
    S('short between', ['R', 'R'], [short(0, 1), ground('R', R2, node=1)])
    S('R and LCpRs on two conductors', ['R', 'LCpRs'], [ground('R', R2), ground('LCpRs', R_, L2_, C2_, node=1, src='vtwo')])
    S('C and LCpRs on two conductors', ['C', 'LCpRs'], [ground('C', C2_, src='vtwo'), ground('LCpRs', R_, L2_, nvar('Cthree'), node=1)])
    S('LCpRs and R, several sources', ['LCpRs', 'R'], [ground('LCpRs', R_, L2_, C2_), ground('R', R2, node=1, src='vtwo')])
    S('two R between', ['R', 'R'], [between(0, 1, R_), between(1, 0, R2, None), ground('R', nvar('Rthree'), src=None)])
    S('two sources at a node', ['R'], [ground('R', R_), ground('R', R2, src='vtwo')])
    S('sources behind R and C', ['C'], [ground('C', C2_), ground('R', R_, src='vtwo')])
    S('source to ground and between', ['R', 'R'], [ground('R', R_), between(0, 1, R2, 'vtwo'), ground('R', nvar('Rthree'), node=1, src=None)])
    S('sources behind R and LCpRs', ['LCpRs'], [ground('LCpRs', R_, L2_, C2_), ground('R', R2, src='vtwo')])
    S('star', ['R', 'R', 'R'], [between(0, 1, R_, None), between(1, 2, R2, None), ground('R', nvar('Rthree'), node=2)])
    return ctx.close(FLOOR, TECH, [R_K])
