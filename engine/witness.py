"""Confirmation of a reported difference.

A difference between two normal forms is only reported when the free symbols can be given values
(consistent with the facts of the region) for which the two *formulas* take different values.
Only formulas extracted by the analysis are evaluated here, never the analysed program; the step
can only withdraw an alarm, it never discharges an obligation."""
import hashlib
import random
import cmath
import time
from .terms import *


class Give(Exception):
    pass


def _h(*xs):
    return int(hashlib.md5(repr(xs).encode()).hexdigest()[:12], 16)


def _rnd(*xs):
    return 0.5 + (_h(*xs) % 999983) / 999983.0


# tokens of arrays whose entries may have either sign (given by a scenario)
SIGNED = set()
# factors for numeric symbols that have to be large for the facts of a scenario to hold
WIDE = {}


class Tok:
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __repr__(self):
        return 'T%r' % (self.t,)


class Clo:
    def __init__(self, lam, ev, bound):
        self.lam, self.ev, self.bound = lam, ev, bound

    def __call__(self, *args):
        return self.ev.lam(self.lam, args, self.bound)


VEC = 3


class Eval:
    def __init__(self, seed, ints, lits, defs=None, defcache=None):
        self.seed, self.ints, self.lits = seed, ints, lits
        self.defs, self.defcache = defs or {}, defcache if defcache is not None else {}
        self.memo = {}
        self.steps = 0

    def tok(self, v):
        """a hashable, rounded image of a value"""
        if isinstance(v, Tok):
            return v.t
        if isinstance(v, (int,)):
            return ('n', float(v), 0.0)
        if isinstance(v, (float, complex)):
            z = complex(v)
            return ('n', float('%.6g' % z.real) + 0.0, float('%.6g' % z.imag) + 0.0)
        if isinstance(v, list):
            return ('v',) + tuple(self.tok(x) for x in v)
        if isinstance(v, Clo):
            return ('f',) + tuple(self.tok(v(x)) for x in (0.7, 1.9))
        if isinstance(v, tuple):
            return tuple(self.tok(x) for x in v)
        return ('r', repr(v))

    def uninterp(self, head, args, kind):
        t = (head,) + tuple(self.tok(a) for a in args)
        if kind in ('num',):
            return _rnd(self.seed, t) - (1 if head == 'rd' and t[1] in SIGNED else 0)
        if kind == 'int':
            return _h(self.seed, t) % 3
        if kind == 'vec':
            return [_rnd(self.seed, t, p) for p in range(VEC)]
        return Tok(*t)

    def lam(self, l, args, bound):
        b = dict(bound)
        for i, a in enumerate(args):
            b[(l.height, i)] = a
        return self.node(l.body, b)

    def node(self, n, bound):
        if isinstance(n, tuple):
            return tuple(self.node(x, bound) for x in n)
        if isinstance(n, Poly):
            return self.poly(n, bound)
        if isinstance(n, Lam):
            return self.lamtok(n, bound)
        if isinstance(n, Atom):
            return self.atom(n, bound)
        return Tok('lit', repr(n))

    def lamtok(self, l, bound):
        out = []
        ks = l.kinds
        samples = [[0 if k == 'int' else 0.7 for k in ks], [1 if k == 'int' else 1.9 for k in ks],
                   [(i + 1) % 2 if k == 'int' else 0.3 + i for i, k in enumerate(ks)]]
        for s in samples:
            out.append(self.tok(self.lam(l, s, bound)))
        return Tok('lam', *out)

    def poly(self, p, bound):
        self.steps += 1
        if self.steps > 400000:
            raise Give('budget')
        if p.const is not None:
            return float(p.const) if p.const.denominator != 1 else int(p.const)
        a = p.atom
        if a is not None:
            return self.atom(a, bound)
        tot = None
        for m, c in p.terms:
            z = float(c) if c.denominator != 1 else int(c)
            # indicators first: a false one kills the term
            ms = sorted(m, key=lambda ae: ae[0].head not in ('lt0', 'eq0', 'beq', 'ind'))
            dead = False
            for x, e in ms:
                v = self.atom(x, bound)
                if isinstance(v, Tok):
                    if len(m) == 1 or all(y.head in IDEM for y, _ in m if y is not x):
                        z = v if z == 1 else Tok('scaled', z, v.t)
                        continue
                    v = _rnd(self.seed, v.t)
                if isinstance(v, Clo):
                    z = v if z == 1 else Tok('scaledf', z, self.tok(v))
                    continue
                if isinstance(z, Tok):
                    z = Tok('prod', z.t, self.tok(v))
                    continue
                if e != 1:
                    v = [q ** e for q in v] if isinstance(v, list) else self.pw(v, e)
                z = vmul(z, v)
                if z == 0:
                    dead = True
                    break
            if dead:
                continue
            tot = z if tot is None else vadd(tot, z)
        return 0 if tot is None else tot

    def pw(self, v, e):
        if v == 0 and e < 0:
            raise Give('division by zero')
        return v ** e

    def num(self, v):
        if isinstance(v, Tok):
            return _rnd(self.seed, v.t)
        if isinstance(v, (list, Clo, tuple)):
            raise Give('not a number')
        return v

    def i(self, v):
        v = self.num(v)
        z = complex(v)
        if abs(z.imag) > 1e-9 or abs(z.real - round(z.real)) > 1e-6:
            raise Give('not an integer')
        return int(round(z.real))

    def atom(self, a, bound):
        try:
            key = (a.key,) + tuple((q, self.tok(bound[q])) for q in sorted(free_bvs(a)))
        except KeyError:
            raise Give('unbound')
        if key in self.memo:
            return self.memo[key]
        v = self._atom(a, bound)
        self.memo[key] = v
        return v

    def _atom(self, a, bound):
        h, args, kind = a.head, a.args, a.kind
        if h == 'var':
            if a.key in self.lits:
                return Tok('str', self.lits[a.key]) if self.lits[a.key] is not None else Tok('none')
            if kind == 'int':
                if a in self.ints:
                    return self.ints[a]
                return _h(self.seed, args) % 3
            if kind == 'num':
                return _rnd(self.seed, args) * WIDE.get(args[0], 1)
            if kind == 'vec':
                return [_rnd(self.seed, args, p) for p in range(VEC)]
            return Tok('var', args[0])
        if h == 'bv':
            if (args[0], args[1]) in bound:
                return bound[(args[0], args[1])]
            raise Give('unbound')
        if h == 'str':
            return Tok('str', args[0])
        if h == 'none':
            return Tok('none')
        if a.key in self.lits and h != 'beq':
            l = self.lits[a.key]
            return Tok('none') if l is None else Tok('str', l)
        ev = lambda x: self.node(x, bound)
        if h == 'rd' and self.defs:
            b = args[0].atom
            if b is not None and b.head == 'var' and b.args[0] in self.defs:
                idx = tuple(self.i(ev(x)) for x in args[1:])
                k = (b.args[0],) + idx
                if k not in self.defcache:
                    self.defcache[k] = self.defs[b.args[0]][0](tuple(topoly(x) for x in idx))
                return self.node(self.defcache[k], {})
        if h == 'lt0':
            z = complex(self.num(ev(args[0])))
            return 1 if z.real < -1e-12 else 0
        if h == 'eq0':
            z = complex(self.num(ev(args[0])))
            return 1 if abs(z) < 1e-9 else 0
        if h == 'beq':
            return 1 if self.tok(ev(args[0])) == self.tok(ev(args[1])) else 0
        if h == 'ind':
            if args[0] == 'any':
                n = self.i(ev(args[1]))
                return 1 if any(self.num(self.lam(args[2], (k,), bound)) for k in range(n)) else 0
            return _h(self.seed, args[0], self.tok(tuple(ev(x) for x in args[1:]))) % 2
        if h == 'inv':
            z = self.num(ev(args[0]))
            if abs(z) < 1e-12:
                raise Give('division by zero')
            return 1 / z
        if h == 'J':
            return 1j
        if h == 'pi':
            return cmath.pi
        if h == 'mod':
            x, y = (complex(self.num(ev(q))).real for q in args)
            if abs(y) < 1e-12:
                raise Give('division by zero')
            q = x / y
            return x - y * (round(q) if abs(q - round(q)) < 1e-9 else int(q // 1))
        if h in ('exp', 'sqrt', 'sin', 'cos', 'tan', 'log'):
            v = ev(args[0])
            if isinstance(v, list):
                return [getattr(cmath, h)(x) for x in v]
            z = getattr(cmath, h)(self.num(v))
            return z.real if abs(z.imag) < 1e-13 else z
        if h == 'abs':
            return abs(self.num(ev(args[0])))
        if h in ('real', 'imag'):
            z = complex(self.num(ev(args[0])))
            return z.real if h == 'real' else z.imag
        if h in ('conj', 'conjugate'):
            return complex(self.num(ev(args[0]))).conjugate()
        if h == 'sum':
            his = [self.i(ev(x)) for x in args[0]]
            tot = 0

            def rec(i, vals):
                nonlocal tot
                if i == len(his):
                    tot = vadd(tot, self.lam(args[1], vals, bound))
                    return
                for k in range(his[i]):
                    rec(i + 1, vals + (k,))
            if len(his) == args[1].n:
                rec(0, ())
                return tot
            raise Give('sum')
        if h == 'matinv':
            n = self.i(ev(args[0]))
            r, c = self.i(ev(args[2])), self.i(ev(args[3]))
            k = ('mi', a.args[1].key, n, tuple((q, self.tok(bound[q])) for q in sorted(free_bvs(a.args[1]))))
            M = self.memo.get(k)
            if M is None:
                M = inverse([[self.num(self.lam(args[1], (x, y), bound)) for y in range(n)] for x in range(n)])
                self.memo[k] = M
            if not (0 <= r < n and 0 <= c < n):
                raise Give('index')
            return M[r][c]
        if h == 'first':
            n = self.i(ev(args[0]))
            for k in range(n):
                if self.num(self.lam(args[1], (k,), bound)):
                    return self.lam(args[2], (k,), bound)
            raise Give('no match')
        if h in ('argmin', 'argmax'):
            n = self.i(ev(args[0]))
            vs = [complex(self.num(self.lam(args[1], (k,), bound))).real for k in range(n)]
            if not vs:
                raise Give('empty')
            return vs.index(min(vs))
        if h in ('minall', 'maxall'):
            l = args[0]
            return self.extreme(h, l, bound)
        if h == 'call':
            f = ev(args[0])
            xs = [ev(x) for x in args[1:]]
            if isinstance(f, Clo):
                return f(*xs)
            return self.uninterp('call', [f] + xs, 'num' if kind in ('num', 'int') else kind)
        if h == 'fun':
            return Clo(args[0], self, dict(bound))
        if h == 'vsum':
            v = ev(args[0])
            if isinstance(v, list):
                return sum(v)
            return v
        if h == 'arr' and kind != 'mat':
            l = args[1]
            if l.n == 1:
                return [self.lam(l, (p,), bound) for p in range(VEC)]
        if h == 'append':
            x, y = ev(args[0]), ev(args[1])
            if not isinstance(x, list) and x == 0:
                return y
            if isinstance(x, list) and isinstance(y, list):
                return [p + 3.7 * q for p, q in zip(x, y)]
        if h == 'divzero':
            raise Give('division by zero')
        if h == 'accum':
            return self.uninterp(h, [ev(x) if not isinstance(x, str) else Tok(x) for x in args], kind)
        return self.uninterp(h, [ev(x) for x in args], kind)

    def extreme(self, h, l, bound):
        # body = (dims, guard, value); dims may not depend on the bound variables
        vs = [0] * l.n
        dims = self.lam(l, vs, bound)[0]
        dims = [self.i(d) for d in dims]
        best = None

        def rec(i, vals):
            nonlocal best
            if i == l.n:
                _d, g, v = self.lam(l, vals, bound)
                if not self.num(g):
                    return
                v = complex(self.num(v)).real
                if best is None or (v < best if h == 'minall' else v > best):
                    best = v
                return
            for k in range(dims[i]):
                rec(i + 1, vals + (k,))
        rec(0, ())
        if best is None:
            raise Give('empty')
        return best


def vmul(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return [x * y for x, y in zip(a, b)]
    if isinstance(a, list):
        return [x * b for x in a]
    if isinstance(b, list):
        return [a * x for x in b]
    if isinstance(a, (Tok, Clo, tuple)) or isinstance(b, (Tok, Clo, tuple)):
        raise Give('product')
    return a * b


def vadd(a, b):
    if isinstance(a, (Tok, Clo)) or isinstance(b, (Tok, Clo)):
        if a == 0:
            return b
        if b == 0:
            return a
        return Tok('sum', repr(a), repr(b))
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list):
            a = [a] * VEC if a != 0 else [0] * VEC
        if not isinstance(b, list):
            b = [b] * VEC if b != 0 else [0] * VEC
        return [x + y for x, y in zip(a, b)]
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Give('sum')
    return a + b


def inverse(M):
    n = len(M)
    A = [list(map(complex, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < 1e-10:
            raise Give('singular')
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def literals(nodes):
    """atom key -> string/None literals it is compared with"""
    out = {}
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Lam):
            if x.key not in seen:
                seen.add(x.key)
                rec(x.body)
        elif isinstance(x, Poly):
            if x.key not in seen:
                seen.add(x.key)
                for a in x.atoms():
                    rec(a)
        elif isinstance(x, Atom):
            if x.key in seen:
                return
            seen.add(x.key)
            if x.head == 'beq':
                for p, q in (x.args, x.args[::-1]):
                    pa, qa = p.atom, q.atom
                    if pa is not None and qa is not None and qa.head in ('str', 'none') and pa.head not in ('str', 'none') and pa.height == 0:
                        out.setdefault(pa.key, set()).add(qa.args[0] if qa.head == 'str' else None)
            for y in x.args:
                rec(y)
    for n in nodes:
        rec(n)
    return out


def close(x, y):
    if isinstance(x, (Tok, Clo, tuple)) or isinstance(y, (Tok, Clo, tuple)):
        return None
    if isinstance(x, list) or isinstance(y, list):
        x = x if isinstance(x, list) else [x] * VEC
        y = y if isinstance(y, list) else [y] * VEC
        return all(close(p, q) for p, q in zip(x, y))
    x, y = complex(x), complex(y)
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))


def witness(a, b, facts_, defs=None, tries=4000, want=10, seed0=1, seconds=60):
    """('differ', assignment, va, vb) | ('agree', n) | ('unknown', why)"""
    fv = set()
    for x in (a, b) + tuple(facts_):
        fv |= x.fv
    ints = sorted([v for v in fv if v.kind == 'int'], key=lambda v: v.args[0])
    lits = literals((a, b) + tuple(facts_))
    rng = random.Random(seed0)
    n = 0
    why = 'no assignment satisfies the facts'
    defcache = {}
    t_end = time.time() + seconds
    for t in range(tries):
        hi = 2 + t % 6
        asg = {v: rng.randint(0, hi) for v in ints}
        la = {}
        for k, s in sorted(lits.items()):
            s = sorted(s, key=str)
            c = rng.randint(0, len(s))
            if c < len(s):
                la[k] = s[c]
        if time.time() > t_end:
            why = 'time'
            break
        e = Eval(t, asg, la, defs, defcache)
        try:
            if any(complex(e.num(e.poly(f, {}))).real < -1e-9 for f in facts_):
                continue
            va, vb = e.poly(a, {}), e.poly(b, {})
            c = close(va, vb)
            if c is None:
                c = e.tok(va) == e.tok(vb)
        except Give as g:
            why = str(g)
            continue
        except (OverflowError, ZeroDivisionError, ValueError, RecursionError) as g:
            why = str(g)
            continue
        n += 1
        if not c:
            return ('differ', {v.args[0]: x for v, x in asg.items()}, va, vb)
        if n >= want:
            break
    if n:
        return ('agree', n)
    return ('unknown', why)
