"""Probes report what the line does, at the node asked for, with the right times."""
from engine.witness import SIGNED
from checks.c12 import *
from checks.c10 import *
from checks.c06 import *

FLOOR = 40
TECH = ('Abstract interpretation of add_probe at symbolic positions followed by public runs of one and several steps; the recorded frames and times are compared with the state the run left '
        'after each step.')
R_N = 'the probe watches the node nearest to its position'
R_F = 'frame m holds the voltages of the watched node (or the currents of the cell starting there, the last cell for the far end), all conductors, after step m+1'
R_T = 'voltage frames carry the time at the end of the step, current frames half a step later'
R_C = 'there is exactly one frame per step of the latest run and one column per conductor'
Z_ = nvar('z')
SIGNED.update((('var', 'u'), ('var', 'w')))
POSITIVE.add(nvar('dt0').atom)


def thing(ctx, I, kind, n, dt=None):
    line = simple_line(ctx, I, n, dt=dt)
    havoc(I, line, 'v_sources', 'vs', 'fun')
    if kind == 'line':
        return line, line
    bd = make_bundle(ctx, I, {0: [line]})
    return bd, make_mtln(ctx, I, [bd])


def settle_state(I, x, run, dt=True):
    havoc(I, x, 'v')
    havoc(I, x, 'i')
    if dt:
        set_dt(I, run)


def frames(ctx, I, tag, pr, kind, k, n, states, t0):
    """the probe's frames against the states after each step"""
    steps = len(states)
    t, val = I.getattr(pr, 't'), I.getattr(pr, 'val')
    sh = npmodel.as_array(I, val).shape
    ctx.equal(I, tag + '.frames', npmodel.as_array(I, t).shape[0], num(steps), R_C)
    ctx.holds(tag + '.shape', len(sh) == 2 and is_zero(sh[0] - steps) and is_zero(sh[1] - n), R_C, None, 'shape %s' % (sh,))
    if len(sh) != 2:
        return
    tc, vc = I.content(npmodel.as_array(I, t)), I.content(npmodel.as_array(I, val))
    for m in range(steps):
        v, i = states[m]
        want = t0 + (m + 1) * DT + (DT / 2 if kind == 'current' else ZERO)
        ctx.equal(I, '%s.time.%d' % (tag, m), tc((num(m),)), want, R_T)
        got = vc((num(m), C_))
        with facts(C_, n - 1 - C_):
            if kind == 'voltage':
                w = v(C_, k)
            else:
                w = i(C_, NX - 1) if is_zero(k - NX) else i(C_, k)
            ctx.equal(I, '%s.value.%d' % (tag, m), vc((num(m), C_)), w, R_F)


def record(ctx, what, tag, kind, k, fs, steps, pos='array', runs=(1,), late_dt=False, n=N):
    """runs of 1.. steps; every frame against the state a run of that many steps leaves"""
    I = ctx.interp()
    with facts(SMALL_DT, 10 ** 9 - nvar('dt0'), NX - 3, *fs):
        x, run = thing(ctx, I, what, n, nvar('dt0') if late_dt else None)
        p = {'array': lambda: node_position(I, k), 'float': lambda: k * H, 'list': lambda: pyval(I, [ZERO, ZERO, k * H])}[pos]()
        ctx.call(I, x, 'add_probe', node_position(I, ONE), string('current' if kind == 'voltage' else 'voltage'))
        pr = ctx.call(I, x, 'add_probe', p, string(kind))
        settle_state(I, x, run)
        t0 = nvar('t0')
        I.setattr(run, 'time', t0)
        if x is not run:
            I.setattr(x, 'time', t0)
        done = 0
        for r, steps in enumerate(runs):
            states = []
            for m in range(1, steps + 1):
                keep = I.state
                I.state = keep.clone()
                advance(ctx, I, run, m)
                states.append((snapshot(I, x, 'v'), snapshot(I, x, 'i')))
                if m < steps:
                    I.state = keep
            frames(ctx, I, '%s.run%d' % (tag, r), pr, kind, k, n, states, t0 + done * DT)
            done += steps


def anywhere(ctx, what, tag, kind, pos):
    I = ctx.interp()
    n = num(1)
    with facts(SMALL_DT, NX - 3, Z_, LEN - Z_):
        x, run = thing(ctx, I, what, n)
        pr = ctx.call(I, x, 'add_probe', Z_ if pos == 'float' else off_line(I, Z_), string(kind))
        ctx.equal(I, tag + '.index', I.getattr(pr, 'index'), nearest(I, I.getattr(x, 'u'), off_line(I, Z_)), R_N)


def general(ctx, tag):
    """any set of nodes, any position"""
    I = ctx.interp()
    with facts(NX - 3):
        u = symarr(I, 'u', (NX + 1, num(3)))
        w = symarr(I, 'w', (num(3),))
        pr = I.call_value(ctx.cls(I, 'probes', 'Probe'), [w, string('voltage'), DT, u], {})
        ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
        ctx.equal(I, tag + '.index', I.getattr(pr, 'index'), nearest(I, u, w), R_N)


def two_bundles(ctx, tag):
    """each probe records its own bundle"""
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        bs = []
        for t, n in (('a', num(1)), ('b', num(2))):
            line = simple_line(ctx, I, n, t)
            bs.append((make_bundle(ctx, I, {0: [line]}, 'bundle ' + t), n))
        nw = make_mtln(ctx, I, [b for b, _ in bs])
        prs = [(ctx.call(I, b, 'add_probe', node_position(I, TWO), string(kind)), b, n, kind) for b, n in bs for kind in ('voltage', 'current')]
        for (b, n), t in zip(bs, 'ab'):
            havoc(I, b, 'v', 'v' + t)
            havoc(I, b, 'i', 'i' + t)
        set_dt(I, nw)
        advance(ctx, I, nw)
        for pr, b, n, kind in prs:
            frames(ctx, I, '%s.%s.%s' % (tag, kind, n), pr, kind, TWO, n, [(snapshot(I, b, 'v'), snapshot(I, b, 'i'))], ZERO)


def unknown(ctx, what, tag):
    I = ctx.interp()
    with facts(SMALL_DT, NX - 3):
        x, run = thing(ctx, I, what, num(1))
        set_dt(I, run)

        def request():
            ctx.call(I, x, 'add_probe', node_position(I, ONE), string('charge'))
            advance(ctx, I, run)
        refused(ctx, I, tag, request)


def run(ctx):
    for what in ('line', 'bundle'):
        for kind in ('voltage', 'current'):
            t = '%s probe of a %s' % (kind, what)
            ctx.scenario(t + ', inner node', record, ctx, what, t + ', inner node', kind, K_, (K_ - 1, NX - 1 - K_), 2, 'array', (3, 1), False, num(1))
            ctx.scenario(t + ', near end', record, ctx, what, t + ', near end', kind, ZERO, (), 1, 'float')
            ctx.scenario(t + ', far end', record, ctx, what, t + ', far end', kind, NX, (), 1, 'array')
            ctx.scenario(t + ', step chosen later', record, ctx, what, t + ', step chosen later', kind, ONE, (), 1, 'array', (1,), True)
            ctx.scenario(t + ' anywhere', anywhere, ctx, what, t + ' anywhere', kind, 'float' if kind == 'voltage' else 'array')
            if ctx.thorough:
                ctx.scenario(t + ', four steps', record, ctx, what, t + ', four steps', kind, K_, (K_ - 1, NX - 1 - K_), 3, 'array', (4, 1, 2), False, num(1))
        ctx.scenario('unknown type ' + what, unknown, ctx, what, 'unknown type ' + what)
    ctx.scenario('any nodes', general, ctx, 'any nodes')
    ctx.scenario('two bundles', two_bundles, ctx, 'two bundles')
    return ctx.close(FLOOR, TECH, [R_N, R_F, R_T, R_C])
