"""Waveforms: every helper is its defining formula at every time."""
from engine.witness import WIDE
from checks.lines import *

FLOOR = 60
TECH = ('Abstract interpretation of the waveform helpers in every regime of time (before, on and after each breakpoint, the parameters being sums of arbitrary positive lengths so that each regime is covered exactly); '
        'the normal form of the result is compared with the defining formula. Symbolic helpers are compared after substitution of an arbitrary place and time.')
R_W = 'in each regime of time the waveform has the value of its defining formula'
R_S = 'the symbolic waveform at an arbitrary place and time has the value of the formula at the retarded time'
PI = P(Atom('pi', (), 'num'))
A_, T_, S_, X0, Y0, Z0, V_ = [nvar(x) for x in ('A', 'tt', 'ss', 'px', 'py', 'pz', 'vel')]
A1, A2, A3, A4, A5, A6 = LENS = [nvar('len%d' % k) for k in range(6)]
PER = nvar('period')
POSITIVE.update(x.atom for x in LENS + [V_, PER])
WIDE['period'] = 8
EX = lambda p: app('exp', (p,))


def value(ctx, I, name, args):
    f = ctx.fun(I, 'waveforms', name)
    r = I.call_value(f, list(args), {})
    ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
    return r


def numeric(ctx, name, cases):
    """cases: (regime, arguments, wanted)"""
    for regime, args, want, *fs in cases:
        I = ctx.interp()
        with facts(*fs):
            ctx.equal(I, '%s, %s' % (name, regime), value(ctx, I, name, args), want, R_W)


def at_place(r, t, x=X0, y=Y0, z=Z0):
    m = {nvar('sym:' + k).atom: v for k, v in (('t', t), ('x', x), ('y', y), ('z', z), ('v', V_))}
    return resimp(subst(r, m)) if isinstance(r, Poly) else r


def symbolic(ctx, name, cases):
    """cases: (regime, arguments, (t[, x, y, z]), wanted)"""
    for regime, args, where, want, *fs in cases:
        I = ctx.interp()
        with facts(*fs):
            r = value(ctx, I, name, args)
            if not isinstance(r, Poly):
                r = I.to_term(r)
            ctx.equal(I, '%s, %s' % (name, regime), at_place(r, *where), want, R_S)


def ramp(t):
    """(regime, x0, time, value): the rise time x0 and a time in each regime"""
    return [('before the start', A1, -A2, ZERO), ('at the start', A1, ZERO, ZERO), ('rising', A1 + A2, A1, A_ * A1 / (A1 + A2)), ('at the top', A1, A1, A_), ('after the rise', A1, A1 + A2, A_)]


def pulse():
    return [('before', A1, -A2, 0), ('inside', A1 + A2, A1, 1), ('after', A1, A1 + A2, 0)]


def trapezoid():
    """(regime, rise, flat, fall, period, time in the period, value)"""
    out = []
    for tag, R, K, F, Z, t, want in [
            ('start of the period', A1, A2, A3, A4, ZERO, ZERO),
            ('rising', A1 + A5, A2, A3, A4, A1, A_ * A1 / (A1 + A5)),
            ('end of the rise', A1, A2, A3, A4, A1, A_),
            ('flat', A1, A2 + A5, A3, A4, A1 + A2, A_),
            ('end of the flat part', A1, A2, A3, A4, A1 + A2, A_),
            ('falling', A1, A2, A3 + A5, A4, A1 + A2 + A3, A_ * A5 / (A3 + A5)),
            ('end of the fall', A1, A2, A3, A4, A1 + A2 + A3, ZERO),
            ('after the fall', A1, A2, A3, A4 + A5, A1 + A2 + A3 + A4, ZERO)]:
        out.append((tag, R, F, 1 / PER, (K + (R + F) / 2) / PER, PER, t, want, (PER - R - K - F - Z,)))
    return out


def run(ctx):
    n = lambda name, cases: ctx.scenario(name, numeric, ctx, name, cases)
    s = lambda name, cases: ctx.scenario(name, symbolic, ctx, name, cases)
    n('exp', [('any time', (T_, A_, X0), A_ * (1 - EX(-T_ / X0)))])
    n('gaussian', [('any time', (T_, X0, S_), EX(-(T_ - X0) * (T_ - X0) / (2 * S_ * S_)))])
    n('gaussian_2', [('any time', (T_, A_, X0, S_), A_ * EX(-(T_ - X0) * (T_ - X0) / (S_ * S_)))])
    s('gaussian_2_sp', [('any time', (A_, X0, S_), (T_,), A_ * EX(-(T_ - X0) * (T_ - X0) / (S_ * S_)))])
    n('square_pulse', [(r, (t, A_, x0), A_ * w) for r, x0, t, w in pulse()])
    n('triangle_pulse', [(r, (t, A_, x0), A_ * w * t / x0) for r, x0, t, w in pulse()] + [('at the start', (ZERO, A_, A1), ZERO)])
    n('sin_sq_pulse', [(r, (t, A_, PI / x0), A_ * w * ipow(app('sin', (PI * t / x0,)), 2)) for r, x0, t, w in pulse()] + [('at the start', (ZERO, A_, S_ * S_ + 1), ZERO)])
    n('sin_pulse', [('any time', (T_, A_, S_), A_ * app('sin', (S_ * T_,)))])
    n('ramp_pulse', [(r, (t, A_, x0), w) for r, x0, t, w in ramp(T_)])
    s('ramp_pulse_sp', [(r, (A_, x0), (t,), w) for r, x0, t, w in ramp(T_)])
    for k, axis in enumerate('xyz'):
        place = [X0, Y0, Z0]
        s('ramp_pulse_%s_sp' % axis, [(r, (A_, x0, V_), (t - place[k] / V_, X0, Y0, Z0), w) for r, x0, t, w in ramp(T_)])
    for m in (ZERO, ONE, ivar('m')):
        tag = 'period %s, ' % show(m)
        n('trapezoidal_wave', [(tag + r, (m * per + t, A_, R, F, f0, D), w, *fs) for r, R, F, f0, D, per, t, w, fs in trapezoid()])
        for name in ('trapezoidal_wave_sp', 'trapezoidal_wave_x_sp'):
            s(name, [(tag + r, (A_, R, F, f0, D, V_), (m * per + t - X0 / V_, X0, Y0, Z0), w, *fs) for r, R, F, f0, D, per, t, w, fs in trapezoid()])
    a, b, c = nvar('da'), nvar('db'), nvar('dc')
    dbl = lambda t: c * (EX(-a * t) - EX(-b * t))
    n('double_exp', [('any time', (T_, c, a, b), dbl(T_))])
    s('double_exp_sp', [('any time', (c, a, b), (T_,), dbl(T_))])
    for pl in ('xy', 'yz', 'xz'):
        w = {'x': X0, 'y': Y0, 'z': Z0}
        s('double_exp_%s_sp' % pl, [('any place and time', (c, a, b), (T_, X0, Y0, Z0), dbl(T_ + w[pl[0]] / V_ + w[pl[1]] / V_))])
    s('null', [('any place and time', (), (T_,), ZERO)])
    return ctx.close(FLOOR, TECH, [R_W, R_S])
