"""Hash-consed algebraic normal forms used as the value domain of the analyser.

Every abstract scalar is a `Poly`: a sum of monomials over interned `Atom`s with
rational coefficients.  Atoms are uninterpreted or semi-interpreted applications.
Conditions are polynomials over 0/1 indicator atoms, so that a value selected by a
condition c is  c*a + (1-c)*b  whatever statement form selected it.  Bound variables
(sums, inverses, first-match searches, functions of time) are closed in `Lam` nodes
whose variables are named by binder height, so alpha-equivalent terms are identical.

Nothing here executes the analysed program: values are rewritten, never computed.
"""
from fractions import Fraction
import hashlib
import time

_ATOMS = {}
_POLYS = {}
_LAMS = {}
_counter = [0]

IDEM = {'lt0', 'eq0', 'beq', 'ind'}


def _digest(s):
    return hashlib.md5(s.encode()).hexdigest()


def node_key(a):
    if isinstance(a, (Poly, Atom, Lam)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(node_key(x) for x in a) + ')'
    return repr(a)


def _height(a):
    if isinstance(a, (Poly, Atom, Lam)):
        return a.height
    if isinstance(a, tuple):
        return max([_height(x) for x in a] or [0])
    return 0


def _fv(a):
    if isinstance(a, (Poly, Atom, Lam)):
        return a.fv
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            r |= _fv(x)
        return r
    return frozenset()


def _opq(a):
    if isinstance(a, (Poly, Atom, Lam)):
        return a.opaque
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            r |= _opq(x)
        return r
    return frozenset()


class Atom:
    __slots__ = ('head', 'args', 'kind', 'key', 'height', 'fv', 'opaque')

    def __new__(cls, head, args=(), kind='num'):
        k = (head, tuple(node_key(x) for x in args), kind)
        a = _ATOMS.get(k)
        if a is None:
            a = object.__new__(cls)
            a.head, a.args, a.kind = head, tuple(args), kind
            a.key = _digest('A' + repr(k))
            a.height = max([_height(x) for x in args] or [0])
            f = frozenset()
            for x in args:
                f |= _fv(x)
            a.fv = f | {a} if head == 'var' else f
            o = frozenset()
            for x in args:
                o |= _opq(x)
            if head == 'opaque':
                o = o | {args[0]}
            a.opaque = o
            _ATOMS[k] = a
        return a

    @property
    def isint(self):
        return self.kind == 'int' or self.head in IDEM

    def __repr__(self):
        return show(self)


class Lam:
    """A function of `n` bound variables; body is any node or tuple of nodes."""
    __slots__ = ('n', 'body', 'key', 'height', 'fv', 'opaque', 'kinds')

    def __repr__(self):
        return show(self)


def bv(h, i, kind):
    return Atom('bv', (h, i), kind)


def fresh(name='k', kind='int'):
    _counter[0] += 1
    return Atom('var', ('%s_%d' % (name, _counter[0]),), kind)


def mklam(vars_, body):
    h = _height(body) + 1
    m = {v: P(bv(h, i, v.kind)) for i, v in enumerate(vars_)}
    nb = subst(body, m)
    # substitution can only keep or lower heights of the remaining structure
    k = (len(vars_), h, node_key(nb))
    l = _LAMS.get(k)
    if l is None:
        l = object.__new__(Lam)
        l.n, l.body = len(vars_), nb
        l.kinds = tuple(v.kind for v in vars_)
        l.height = max(h, _height(nb) + 1) if False else h
        l.key = _digest('L' + repr(k))
        l.fv = _fv(nb)
        l.opaque = _opq(nb)
        _LAMS[k] = l
    return l


def _bvs_subst(node, h, vals, cache):
    """Replace bv(h,i) by vals[i] (opening a Lam of height h)."""
    if isinstance(node, tuple):
        return tuple(_bvs_subst(x, h, vals, cache) for x in node)
    if isinstance(node, (Poly, Atom, Lam)):
        if node.height < 0:
            return node
        if isinstance(node, Lam):
            if node.height >= h:
                # an inner binder is always lower than its outer one
                return node
            vs, b = open_lam(node)
            nb = _bvs_subst(b, h, vals, cache)
            if node_key(nb) == node_key(b):
                return node
            return mklam(vs, nb)
        c = cache.get(node.key)
        if c is not None:
            return c
        if isinstance(node, Poly):
            r = _map_poly(node, lambda a: _bvs_subst_atom(a, h, vals, cache))
        else:
            r = _bvs_subst_atom(node, h, vals, cache)
        cache[node.key] = r
        return r
    return node


def _bvs_subst_atom(a, h, vals, cache):
    if a.head == 'bv':
        if a.args[0] == h:
            return vals[a.args[1]]
        return P(a)
    if not a.args:
        return P(a)
    nargs = tuple(_bvs_subst(x, h, vals, cache) for x in a.args)
    if all(node_key(x) == node_key(y) for x, y in zip(nargs, a.args)):
        return P(a)
    return rebuild(a.head, nargs, a.kind)


_fbv = {}


def free_bvs(x):
    """bound variables (height, position) free in a node"""
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= free_bvs(y)
        return r
    if isinstance(x, (Poly, Atom, Lam)):
        r = _fbv.get(x.key)
        if r is None:
            if isinstance(x, Poly):
                r = frozenset()
                for y in x.atoms():
                    r |= free_bvs(y)
            elif isinstance(x, Lam):
                r = frozenset(q for q in free_bvs(x.body) if q[0] != x.height)
            elif x.head == 'bv':
                r = frozenset([(x.args[0], x.args[1])])
            else:
                r = frozenset()
                for y in x.args:
                    r |= free_bvs(y)
            _fbv[x.key] = r
        return r
    return frozenset()


def open_lam(l, vals=None):
    """Return (fresh vars, body) or, when vals are given, the instantiated body."""
    if vals is None:
        vs = [fresh('b', k) for k in l.kinds]
        return vs, _bvs_subst(l.body, l.height, [P(v) for v in vs], {})
    return _bvs_subst(l.body, l.height, [topoly(v) for v in vals], {})


class Poly:
    __slots__ = ('terms', 'key', 'height', 'fv', 'opaque', 'hasind')

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, topoly(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(topoly(o)))

    def __rsub__(self, o):
        return add(topoly(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, topoly(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, topoly(o))

    def __rtruediv__(self, o):
        return div(topoly(o), self)

    @property
    def const(self):
        """The rational value if constant, else None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and self.terms[0][0] == ():
            return self.terms[0][1]
        return None

    @property
    def atom(self):
        """The single atom this polynomial consists of, else None."""
        if len(self.terms) == 1:
            m, c = self.terms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    @property
    def isint(self):
        return all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m)
                   for m, c in self.terms)

    def atoms(self):
        s = {}
        for m, _ in self.terms:
            for a, _e in m:
                s[a.key] = a
        return list(s.values())


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


class OutOfTime(Exception):
    """the time given to one simplification is used up"""


_deadline = [None, 0]


class budget:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = _deadline[0]
        self.nf = list(FACTS)
        d = time.time() + self.s
        _deadline[0] = d if self.old is None else min(d, self.old)
        return self

    def __exit__(self, t, v, tb):
        _deadline[0] = self.old
        if t is OutOfTime and (self.old is None or time.time() < self.old):
            FACTS[:] = self.nf
            return True
        return False


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: (_mono_key(mc[0]), mc[1]))
    k = tuple((_mono_key(m), c) for m, c in items)
    p = _POLYS.get(k)
    if p is None:
        if _deadline[0] is not None:
            _deadline[1] += 1
            if not _deadline[1] & 63 and time.time() > _deadline[0]:
                raise OutOfTime()
        p = object.__new__(Poly)
        p.terms = tuple(items)
        p.key = _digest('P' + repr([(x, str(c)) for x, c in k]))
        h = 0
        f = frozenset()
        o = frozenset()
        for m, _ in items:
            for a, _e in m:
                h = max(h, a.height)
                f |= a.fv
                o |= a.opaque
        p.height, p.fv, p.opaque = h, f, o
        p.hasind = any(a.head in ('eq0', 'lt0') for m, _ in items for a, _e in m)
        _POLYS[k] = p
    return p


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fraction(repr(c))
    c = Fraction(c)
    return mkpoly({(): c})


ZERO = num(0)
ONE = num(1)


def P(a):
    return mkpoly({((a, 1),): Fraction(1)})


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return P(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    raise TypeError('not a scalar term: %r' % (x,))


def string(s):
    return P(Atom('str', (s,), 'str'))


NONE = P(Atom('none', (), 'obj'))


def var(name, kind='num'):
    return P(Atom('var', (name,), kind))


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(a):
    return mkpoly({m: -c for m, c in a.terms})


def scale(a, c):
    c = Fraction(c)
    return mkpoly({m: k * c for m, k in a.terms})


_mulcache = {}


def mul(a, b):
    ca, cb = a.const, b.const
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    key = (a.key, b.key) if a.key <= b.key else (b.key, a.key)
    if FACTS and a.hasind and b.hasind:
        key += tuple(f.key for f in FACTS)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    extra = []
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            r = mono_mul(m1, m2)
            if r is None:
                continue
            if isinstance(r, Poly):
                extra.append(scale(r, c1 * c2))
            else:
                d[r] = d.get(r, 0) + c1 * c2
    out = mkpoly(d)
    for e in extra:
        out = add(out, e)
    if len(_mulcache) > 400000:
        _mulcache.clear()
    _mulcache[key] = out
    return out


_factcache = {}


def _by_facts(kind, p, q):
    """decide, from the current facts, how two integer indicators over p and q relate:
    'ee' p=0 and q=0 exclude each other; 'le' p<0 and q=0 exclude each other; 'el' p=0 implies q<0"""
    if not FACTS or not (p.isint and q.isint):
        return False
    key = (kind, p.key, q.key, tuple(f.key for f in FACTS))
    r = _factcache.get(key)
    if r is None:
        r = False
        for d, sg in ((p - q, -1), (p + q, 1)):
            if len(d.terms) > 3 or len(d.terms) >= len(p.terms) + len(q.terms) or d.height:
                continue
            if kind == 'ee':
                r = prove_ge0(d - 1) or prove_ge0(-d - 1)
            elif kind == 'le':
                # q = 0, so p = p -+ q
                r = prove_ge0(d)
            elif kind == 'll':
                # p < 0 and q < 0: p + q <= -2
                r = sg > 0 and prove_ge0(d + 1)
            elif kind == 'li':
                # p < 0, so q = p - d < -d
                r = sg < 0 and prove_ge0(d)
            elif kind == 'el':
                # p = 0, so q = q -+ p: d is p-q (q = -d) or p+q (q = d)
                r = prove_ge0((d if sg < 0 else -d) - 1)
            if r:
                break
        if len(_factcache) > 300000:
            _factcache.clear()
        _factcache[key] = r
    return r


def _disjoint(a, b):
    """Two distinct indicator atoms that can never both be 1."""
    if a.head == 'beq' and b.head == 'beq':
        for i in (0, 1):
            for j in (0, 1):
                if a.args[i] is b.args[j]:
                    x, y = a.args[1 - i], b.args[1 - j]
                    if _isconst(x) and _isconst(y) and x is not y:
                        return True
        return False
    if a.head in ('lt0', 'eq0') and b.head in ('lt0', 'eq0'):
        pa, pb = a.args[0], b.args[0]
        d = (pa - pb).const
        s = (pa + pb).const
        if a.head == 'eq0' and b.head == 'eq0':
            return (d is not None and d != 0) or (s is not None and s != 0) or _by_facts('ee', pa, pb)
        if a.head == 'lt0' and b.head == 'eq0':
            # pb == 0 ; pa = d (+pb) or s - pb
            return (d is not None and d >= 0) or (s is not None and s >= 0) or _by_facts('le', pa, pb)
        if a.head == 'eq0' and b.head == 'lt0':
            return _disjoint(b, a)
        if a.head == 'lt0' and b.head == 'lt0':
            # pa<0 and pb<0 -> pa+pb<0
            return (s is not None and s >= 0) or (s is None and _by_facts('ll', pa, pb))
    return False


def _implies(a, b):
    """a -> b for two sign indicators over the same linear form."""
    if a.head in ('lt0', 'eq0') and b.head == 'lt0':
        pa, pb = a.args[0], b.args[0]
        d = (pb - pa).const
        if d is not None:
            return d <= 0 if a.head == 'lt0' else d < 0
        if a.head == 'lt0':
            return _by_facts('li', pa, pb)
        if a.head == 'eq0':
            s = (pb + pa).const
            if s is not None:
                return s < 0
            return _by_facts('el', pa, pb)
    return False


def _isconst(p):
    if not isinstance(p, Poly):
        return False
    if p.const is not None:
        return True
    a = p.atom
    return a is not None and a.head in ('str', 'none', 'cls', 'ellipsis')


def mono_mul(m1, m2):
    d = {}
    order = {}
    for a, e in m1 + m2:
        order[a.key] = a
        d[a.key] = d.get(a.key, 0) + e
    return mono_norm(d, order)


def mono_norm(d, order):
    """Normalise a monomial given as key->exp. Returns a monomial, a Poly or None (=0)."""
    items = []
    exps = []
    polys = []
    for k, e in d.items():
        a = order[k]
        if e == 0:
            continue
        if a.head in IDEM:
            items.append((a, 1))
            continue
        if a.head == 'exp':
            exps.append(scale(a.args[0], e))
            continue
        if a.head == 'J' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            polys.append(num((-1) ** (q % 2) if True else 1))
            if r:
                items.append((a, 1))
            continue
        if a.head == 'sqrt' and (e >= 2 or e <= -1):
            q, r = divmod(e, 2)
            polys.append(ipow(a.args[0], q))
            if r:
                items.append((a, 1))
            continue
        if a.head == 'abs' and (e % 2 == 0):
            polys.append(ipow(a.args[0], e))
            continue
        if a.head == 'inv' and e < 0:
            polys.append(ipow(a.args[0], -e))
            continue
        items.append((a, e))
    if len(exps) > 0:
        s = exps[0]
        for x in exps[1:]:
            s = s + x
        if s.const == 0:
            pass
        else:
            items.append((Atom('exp', (s,)), 1))
    inds = [a for a, _ in items if a.head in IDEM]
    if len(inds) > 1:
        drop = set()
        for i in range(len(inds)):
            for j in range(len(inds)):
                if i == j:
                    continue
                if i < j and _disjoint(inds[i], inds[j]):
                    return None
                if inds[j].key not in drop and inds[i].key not in drop and _implies(inds[i], inds[j]):
                    drop.add(inds[j].key)
        if drop:
            items = [(a, e) for a, e in items if a.key not in drop]
    # eq0(x - c) * f(x): nothing is substituted here; regions are compared explicitly
    items.sort(key=lambda ae: ae[0].key)
    m = tuple(items)
    if polys:
        r = mkpoly({m: Fraction(1)})
        for p in polys:
            r = mul(r, p)
        return r
    return m


def ipow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return reciprocal(ipow(p, -n))
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def content_split(p):
    """p = c * m * q with q primitive (leading coefficient 1, no common monomial)."""
    if len(p.terms) == 1:
        m, c = p.terms[0]
        return c, m, ONE
    common = None
    for m, _ in p.terms:
        dm = {a.key: (a, e) for a, e in m}
        if common is None:
            common = dm
        else:
            nc = {}
            for k, (a, e) in common.items():
                if k in dm:
                    e2 = dm[k][1]
                    if e > 0 and e2 > 0:
                        nc[k] = (a, min(e, e2))
                    elif e < 0 and e2 < 0:
                        nc[k] = (a, max(e, e2))
            # negative exponents: clear denominators as common factor
            common = nc
    # clear negative powers
    neg_ = {}
    for m, _ in p.terms:
        for a, e in m:
            if e < 0:
                neg_[a.key] = (a, min(e, neg_.get(a.key, (a, 0))[1]))
    common = {k: v for k, v in common.items() if k not in neg_}
    common.update(neg_)
    common = {k: (a, e) for k, (a, e) in common.items() if a.head not in IDEM and a.head != 'exp'}
    mono = tuple(sorted(((a, e) for a, e in common.values()), key=lambda x: x[0].key))
    invm = mkpoly({tuple((a, -e) for a, e in mono): Fraction(1)}) if mono else ONE
    q = mul(p, invm) if mono else p
    lead = q.terms[0][1]
    q = scale(q, 1 / lead)
    return lead, mono, q


def reciprocal(p):
    c = p.const
    if c is not None:
        if c == 0:
            return P(Atom('divzero', ()))
        return num(1 / c)
    sh = shannon_atoms((p,))
    if sh:
        a = sh[0]
        return ite(P(a), reciprocal(cofactor(p, a, 1)), reciprocal(cofactor(p, a, 0)))
    if len(p.terms) == 1:
        m, c = p.terms[0]
        d = {a.key: -e for a, e in m}
        r = mono_norm(d, {a.key: a for a, e in m})
        if r is None:
            return ZERO
        if isinstance(r, Poly):
            return scale(r, 1 / c)
        return mkpoly({r: 1 / c})
    c, m, q = content_split(p)
    base = mkpoly({m: c})
    r = reciprocal(base)
    if q is ONE:
        return r
    return mul(r, P(Atom('inv', (q,))))


def div(a, b):
    if b.const is not None and b.const != 0:
        return scale(a, 1 / b.const)
    if a is b and not shannon_atoms((b,)):
        return ONE
    return mul(a, reciprocal(b))


# ---------------------------------------------------------------- indicators

def shannon_atoms(args, limit=6):
    """Indicator atoms that occur at top level in the polynomial args."""
    s = {}
    for p in args:
        if isinstance(p, Poly):
            for a in p.atoms():
                if a.head in IDEM:
                    s[a.key] = a
    return [s[k] for k in sorted(s)]


def cofactor(p, a, val):
    d = {}
    for m, c in p.terms:
        nm = []
        zero = False
        for b, e in m:
            if b is a:
                if not val:
                    zero = True
                    break
            else:
                nm.append((b, e))
        if zero:
            continue
        nm = tuple(nm)
        d[nm] = d.get(nm, 0) + c
    r = mkpoly(d)
    # use mutual exclusion / implication with the other indicators
    if val:
        for b in r.atoms():
            if b.head in IDEM and b is not a:
                if _disjoint(a, b):
                    r = cofactor(r, b, 0)
                elif _implies(a, b):
                    r = cofactor(r, b, 1)
    else:
        for b in r.atoms():
            if b.head in IDEM and b is not a and _implies(b, a):
                r = cofactor(r, b, 0)
    return r


def ite(c, a, b):
    k = c.const
    if k == 1:
        return a
    if k == 0:
        return b
    if a is b:
        return a
    x = c.atom
    if x is not None and x.head == 'eq0' and len(a.terms) <= 8 and len(b.terms) <= 8:
        p = x.args[0]
        for v in sorted(p.fv, key=lambda z: z.key):
            if v.kind == 'int' and (v in a.fv or v in b.fv):
                s = solve_for(p, v)
                if s is not None and v not in s.fv:
                    if subst(a, {v: s}) is subst(b, {v: s}):
                        return b
                    break
    return add(mul(c, add(a, neg(b))), b)


def b_not(a):
    return add(ONE, neg(a))


def b_and(a, b):
    return mul(a, b)


def b_or(a, b):
    return add(add(a, b), neg(mul(a, b)))


# facts: polynomials known to be >= 0
FACTS = []


class facts:
    def __init__(self, *ge0):
        self.f = [x for x in ge0 if x.const is None]

    def __enter__(self):
        FACTS.extend(self.f)

    def __exit__(self, *a):
        if self.f:
            del FACTS[-len(self.f):]


_provecache = {}


def prove_ge0(p, depth=5):
    c = p.const
    if c is not None:
        return c >= 0
    if depth == 0 or not FACTS:
        return _all_nonneg(p)
    if _all_nonneg(p):
        return True
    if len(p.terms) > 8:
        return False
    # pick a monomial with a negative coefficient and cancel it with a fact
    for m, c in p.terms:
        if m == () or c >= 0:
            continue
        for f in FACTS:
            fc = None
            for fm, k in f.terms:
                if fm == m:
                    fc = k
            if fc is not None and fc < 0:
                if prove_ge0(p - scale(f, c / fc), depth - 1):
                    return True
        return False if False else _try_pos(p, depth)
    return _try_pos(p, depth)


def _try_pos(p, depth):
    for m, c in p.terms:
        if m == () or c <= 0:
            continue
        for f in FACTS:
            for fm, k in f.terms:
                if fm == m and k > 0:
                    if prove_ge0(p - scale(f, c / k), depth - 1):
                        return True
    return False


NONNEG_HEADS = set(['abs', 'sqrt', 'len', 'argmin', 'exp', 'norm'])
POSITIVE = set()        # symbols known to be strictly positive


def _all_nonneg(p):
    for m, c in p.terms:
        if m == ():
            if c < 0:
                return False
            continue
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0 and a.kind in ('num', 'int') and a.head != 'J':
                continue
            if not (a.head in NONNEG_HEADS or a.head in IDEM or a in POSITIVE):
                return False
    return True


def orient(p):
    """Return (sign, q): p = sign * s * q with q's leading non-constant coefficient 1 (s>0)."""
    for m, c in p.terms:
        if m != ():
            return (1 if c > 0 else -1), scale(p, 1 / abs(c)) if c > 0 else scale(p, -1 / abs(c))
    return 1, p


def _has_float_scale(p):
    return False


def lt0(p):
    """[p < 0]"""
    c = p.const
    if c is not None:
        return ONE if c < 0 else ZERO
    sh = shannon_atoms((p,))
    if sh:
        a = sh[0]
        return ite(P(a), lt0(cofactor(p, a, 1)), lt0(cofactor(p, a, 0)))
    if prove_ge0(p):
        return ZERO
    if p.isint:
        if prove_ge0(-p - 1):
            return ONE
        # boundary forms: p >= -1 makes [p<0] = [p==-1];  p <= 0 makes [p<0] = 1-[p==0]
        if FACTS:
            if prove_ge0(p + 1):
                return eq0(p + 1)
            if prove_ge0(-p):
                return b_not(eq0(p))
        # integer forms: positive lead only
        lead = next(c for m, c in p.terms if m != ())
        if lead < 0:
            return b_not(lt0_raw(-p - 1))
        return lt0_raw(p)
    if prove_ge0(-p) and (_strict(-p) or eq0(p).const == 0):
        return ONE
    q = positive_factors_off(p)
    if q is not p:
        return lt0(q)
    s, q = orient(p)
    if s > 0:
        return P(Atom('lt0', (q,)))
    # -q < 0  <=> q > 0  <=> not(q<0) and not(q==0)
    return ONE - P(Atom('lt0', (q,))) - eq0(q)


def _one_signed(p):
    """a sum of terms of one sign made of positive quantities"""
    if len({c > 0 for _, c in p.terms}) != 1:
        return False
    return all(a in POSITIVE for m, _ in p.terms for a, e in m)


def positive_factors_off(p):
    """p divided by the positive factors all its terms have in common (denominators included)"""
    if len(p.terms) < 2:
        return p
    lo = {}
    for a in p.atoms():
        es = [dict(m).get(a, 0) for m, c in p.terms]
        if min(es) != 0 and (min(es) > 0 or max(es) >= 0):
            lo[a] = min(es)
    lo = {a: e for a, e in lo.items() if a in POSITIVE or prove_ge0(P(a) - 1)}
    if not lo:
        return p
    for a, e in lo.items():
        p = mul(p, ipow(P(a), -e) if e < 0 else reciprocal(ipow(P(a), e)))
    return p


def _strict(p):
    # p >= 0 proven; strictly positive if a positive constant can be taken off
    if prove_ge0(p - Fraction(1, 10 ** 6)):
        return True
    for a in {m[0][0] for f in FACTS for m, c in f.terms if len(m) == 1 and m[0][1] == 1 and m[0][0] in POSITIVE}:
        if prove_ge0(p - P(a)):
            return True
    return False


def lt0_raw(p):
    if prove_ge0(p):
        return ZERO
    if prove_ge0(-p - 1):
        return ONE
    return P(Atom('lt0', (p,)))


def le0(p):
    """[p <= 0]"""
    if p.isint:
        return lt0(p - 1)
    return b_or(lt0(p), eq0(p)) if p.const is None else (ONE if p.const <= 0 else ZERO)


def eq0(p):
    c = p.const
    if c is not None:
        return ONE if c == 0 else ZERO
    sh = shannon_atoms((p,))
    if sh:
        a = sh[0]
        return ite(P(a), eq0(cofactor(p, a, 1)), eq0(cofactor(p, a, 0)))
    if prove_ge0(p - 1) or prove_ge0(-p - 1) or _one_signed(p):
        return ZERO
    if len(p.terms) == 1:
        # product is zero iff a factor is: keep the non-nonzero factors
        m, c = p.terms[0]
        q = mkpoly({tuple((a, 1) for a, e in m if a not in POSITIVE and a.head != 'exp' and not prove_ge0(P(a) - 1)): Fraction(1)})
        if q.const is not None:
            return ZERO
        return P(Atom('eq0', (q,)))
    q = positive_factors_off(p)
    if q is not p:
        return eq0(q)
    s, q = orient(p)
    if p.isint:
        # keep integer coefficients
        lead = next(c for m, c in p.terms if m != ())
        q = p if lead > 0 else -p
    return P(Atom('eq0', (q,)))


def is_numeric(p):
    return all(a.kind in ('num', 'int', 'vec') for a in p.atoms())


def _plain_item(x):
    return isinstance(x, Poly) and (x.atom is None or x.atom.head != 'guarded')


def eq(a, b):
    """Equality of two scalar terms as an indicator."""
    if a is b:
        return ONE
    sh = shannon_atoms((a, b))
    if sh and (not is_numeric(a) or not is_numeric(b)):
        x = sh[0]
        return ite(P(x), eq(cofactor(a, x, 1), cofactor(b, x, 1)),
                   eq(cofactor(a, x, 0), cofactor(b, x, 0)))
    if is_numeric(a) and is_numeric(b):
        return eq0(a - b)
    if _isconst(a) and _isconst(b):
        return ZERO
    if a.atom is not None and b.atom is not None and a.atom.head == b.atom.head == 'tuple' and all(isinstance(x, Poly) for x in a.atom.args + b.atom.args):
        if len(a.atom.args) != len(b.atom.args):
            return ZERO
        r = ONE
        for x, y in zip(a.atom.args, b.atom.args):
            r = r * eq(x, y)
        return r
    if a.atom is not None and b.atom is not None and a.atom.head == b.atom.head == 'obj':
        # distinct objects of the analysed program (none of its classes redefines equality)
        return ZERO
    if a.atom is not None and b.atom is not None and a.atom.head == b.atom.head == 'listval' and all(map(_plain_item, a.atom.args + b.atom.args)):
        if len(a.atom.args) != len(b.atom.args):
            return ZERO
        r = ONE
        for x, y in zip(a.atom.args, b.atom.args):
            r = r * eq(x, y)
        return r
    for x, y in ((a, b), (b, a)):
        xa, ya = x.atom, y.atom
        if _isconst(y) and xa is not None:
            if xa.kind in ('num', 'int') and ya is not None and ya.kind in ('str',):
                return ZERO
            if xa.kind == 'fun' or xa.head in ('new', 'dictval', 'listval', 'tuple'):
                return ZERO
    x, y = sorted((a, b), key=lambda q: (_isconst(q), q.key))
    return P(Atom('beq', (x, y)))


def ind(head, args):
    """A generic boolean application."""
    sh = shannon_atoms([x for x in args if isinstance(x, Poly)])
    if sh:
        a = sh[0]
        return ite(P(a), ind(head, tuple(cofactor(x, a, 1) if isinstance(x, Poly) else x for x in args)),
                   ind(head, tuple(cofactor(x, a, 0) if isinstance(x, Poly) else x for x in args)))
    return P(Atom('ind', (head,) + tuple(args)))


# ---------------------------------------------------------------- applications

SMART = {}


def smart(head):
    def deco(f):
        SMART[head] = f
        return f
    return deco


def rebuild(head, args, kind):
    f = SMART.get(head)
    if f is not None:
        return f(*args, kind=kind)
    return app(head, args, kind)


def app(head, args, kind='num'):
    f = SMART.get(head)
    if f is not None:
        return f(*args, kind=kind)
    return raw_app(head, args, kind)


def raw_app(head, args, kind='num'):
    args = tuple(args)
    sh = shannon_atoms([x for x in args if isinstance(x, Poly)])
    if sh and len(sh) <= 6:
        a = sh[0]
        return ite(P(a), app(head, tuple(cofactor(x, a, 1) if isinstance(x, Poly) else x for x in args), kind),
                   app(head, tuple(cofactor(x, a, 0) if isinstance(x, Poly) else x for x in args), kind))
    return P(Atom(head, args, kind))


def opaque(reason, args=(), kind='num'):
    return P(Atom('opaque', (reason,) + tuple(args), kind))


@smart('var')
def _s_var(n, kind='num'):
    return P(Atom('var', (n,), kind))


@smart('bv')
def _s_bv(h, i, kind='num'):
    return P(Atom('bv', (h, i), kind))


@smart('str')
def _s_str(s, kind='str'):
    return P(Atom('str', (s,), 'str'))


@smart('lt0')
def _s_lt0(p, kind='num'):
    return lt0(p)


@smart('eq0')
def _s_eq0(p, kind='num'):
    return eq0(p)


@smart('beq')
def _s_beq(a, b, kind='num'):
    return eq(a, b)


@smart('ind')
def _s_ind(head, *args, kind='num'):
    if head == 'any':
        return mkany(*args)
    return ind(head, args)


@smart('inv')
def _s_inv(p, kind='num'):
    return reciprocal(p)


def _square_free(p):
    return p


def poly_root(p):
    """q with q*q == p, or None"""
    atoms = sorted({a.key for m, _ in p.terms for a, _ in m})

    def order(m):
        d = {a.key: e for a, e in m}
        return tuple(d.get(k, 0) for k in atoms)
    lm, lc = max(p.terms, key=lambda t: order(t[0]))
    if lc < 0 or any(e % 2 for _, e in lm):
        return None
    import math
    a, b = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    q = mkpoly({tuple((x, e // 2) for x, e in lm): Fraction(a, b)})
    lead = q.terms[0]
    for _ in range(12):
        rest = p - q * q
        if not rest.terms:
            return q
        m, c = max(rest.terms, key=lambda t: order(t[0]))
        d = _mono_div(m, lead[0])
        if d is None:
            return None
        q = q + mkpoly({d: c / (2 * lead[1])})
    return None


@smart('sqrt')
def mksqrt(p, kind='num'):
    c = p.const
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    sh = shannon_atoms((p,))
    if sh:
        a = sh[0]
        return ite(P(a), mksqrt(cofactor(p, a, 1)), mksqrt(cofactor(p, a, 0)))
    if len(p.terms) == 1:
        m, c = p.terms[0]
        out = ONE
        rest = []
        for a, e in m:
            if e % 2 == 0:
                out = out * ipow(mkabs(P(a)), e // 2)
            else:
                rest.append((a, e))
        if out is not ONE:
            return out * mksqrt(mkpoly({tuple(rest): c}))
    else:
        # take out common squared monomials: norm of a scaled vector
        c, m, q = content_split(p)
        ev = tuple((a, e - (e % 2)) for a, e in m if e - (e % 2) != 0)
        if ev:
            root = ONE
            for a, e in ev:
                root = root * ipow(mkabs(P(a)), e // 2)
            return root * mksqrt(p * mkpoly({tuple((a, -e) for a, e in ev): Fraction(1)}))
        r = poly_root(p)
        if r is not None:
            return mkabs(r)
    return P(Atom('sqrt', (p,)))


@smart('abs')
def mkabs(p, kind='num'):
    c = p.const
    if c is not None:
        return num(abs(c))
    if prove_ge0(p):
        return p
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            return P(Atom('abs', (P(m[0][0]),)))
        r = num(abs(c))
        for a, e in m:
            if a.head in IDEM:
                r = r * P(a)
            else:
                r = r * ipow(mkabs(P(a)), e) if e > 0 else r * reciprocal(ipow(mkabs(P(a)), -e))
        return r
    sh = shannon_atoms((p,))
    if sh:
        a = sh[0]
        return ite(P(a), mkabs(cofactor(p, a, 1)), mkabs(cofactor(p, a, 0)))
    common = None
    for m, c in p.terms:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    common = {a: e for a, e in common.items() if e > 0}
    if common:
        r = mkabs(mkpoly({tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0)): c for m, c in p.terms}))
        for a, e in common.items():
            r = r * ipow(mkabs(P(a)), e)
        return r
    s, q = orient(p)
    c0 = [c for m, c in p.terms if m != ()][0]
    return num(abs(c0)) * P(Atom('abs', (q,)))


@smart('exp')
def mkexp(p, kind='num'):
    if p.const == 0:
        return ONE
    return raw_app('exp', (p,))


def _odd(head):
    def f(p, kind='num'):
        if p.const == 0:
            return ZERO
        sh = shannon_atoms((p,))
        if sh:
            return raw_app(head, (p,))
        s, q = (1, p)
        lead = next((c for m, c in p.terms if m != ()), p.const)
        if lead < 0:
            return neg(P(Atom(head, (-p,))))
        return P(Atom(head, (p,)))
    SMART[head] = f
    return f


for _h in ('sin', 'tan', 'arctan', 'arcsin', 'sign'):
    _odd(_h)


@smart('cos')
def mkcos(p, kind='num'):
    if p.const == 0:
        return ONE
    sh = shannon_atoms((p,))
    if sh:
        return raw_app('cos', (p,))
    lead = next((c for m, c in p.terms if m != ()), p.const)
    return P(Atom('cos', (-p if lead < 0 else p,)))


# ---- sums -------------------------------------------------------------------

def linear_split(body, keep):
    """Yield (outer monomial poly, inner monomial poly) for each term; `keep(atom)` tells
    whether an atom must stay inside the binder."""
    for m, c in body.terms:
        outer, inner = [], []
        for a, e in m:
            (inner if keep(a) else outer).append((a, e))
        yield c, tuple(outer), tuple(inner)


def mksum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body   (v a fresh integer Atom)"""
    if lo.const != 0:
        # shift to a zero lower bound
        w = fresh('s')
        return mksum(w, ZERO, hi - lo, subst(body, {v: P(w) + lo}))
    n = hi.const
    if n is not None and n <= 6:
        r = ZERO
        for i in range(int(n)):
            r = r + subst(body, {v: num(i)})
        return r
    if v not in body.fv:
        return body * nonneg(hi)
    with facts(P(v), hi - 1 - P(v)):
        body = resimp(body)
    out = {}
    res = ZERO
    for c, outer, inner in linear_split(body, lambda a: v in a.fv):
        om = mkpoly({outer: c})
        if not inner:
            res = res + om * nonneg(hi)
            continue
        done = False
        for a, e in inner:
            if a.head == 'eq0':
                sol = solve_for(a.args[0], v)
                if sol is not None:
                    rest = mkpoly({tuple(x for x in inner if x[0] is not a): Fraction(1)})
                    r = subst(rest, {v: sol})
                    inr = b_and(b_not(lt0(sol)), lt0(sol - hi))
                    res = res + om * r * inr
                    done = True
                    break
        if done:
            continue
        out[inner] = out.get(inner, ZERO) + om
    for inner, om in out.items():
        res = res + om * _sum_atom(v, hi, mkpoly({inner: Fraction(1)}))
    return res


def nonneg(n):
    """max(n,0) -- the number of iterations; known non-negative in all uses."""
    return n


def solve_for(p, v):
    """p linear in v with coefficient +-1: return v's value making p zero."""
    pv = P(v)
    coef = None
    for m, c in p.terms:
        for a, e in m:
            if a is v:
                if len(m) != 1 or e != 1:
                    return None
                coef = c
            elif v in a.fv:
                return None
    if coef is None or abs(coef) != 1:
        return None
    return scale(p - scale(pv, coef), -1 / coef)


def _sum_atom(v, hi, inner):
    """inner is a single monomial depending on v. Flatten directly nested sums."""
    vars_, his = [v], [hi]
    body = inner
    # flatten sum atoms inside a single monomial: sum_v f * sum_w g = sum_{v,w} f*g
    changed = True
    while changed:
        changed = False
        m = body.terms[0][0]
        for a, e in m:
            if a.head == 'sum' and e == 1:
                ws, b = open_lam(a.args[1])
                hs = a.args[0]
                if any(set(vars_) & set(h.fv) for h in hs):
                    continue
                rest = mkpoly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                nb = rest * b
                if len(nb.terms) != 1:
                    continue
                vars_ += ws
                his += list(hs)
                body = nb
                changed = True
                break
    best = None
    import itertools
    if len(vars_) > 4:
        perms = [tuple(range(len(vars_)))]
    else:
        perms = itertools.permutations(range(len(vars_)))
    for p in perms:
        l = mklam([vars_[i] for i in p], body)
        hs = tuple(his[i] for i in p)
        k = (node_key(hs), l.key)
        if best is None or k < best[0]:
            best = (k, hs, l)
    return P(Atom('sum', (best[1], best[2]), 'int' if body.isint else 'num'))


@smart('sum')
def _s_sum(hs, lam, kind='num'):
    vs, b = open_lam(lam)
    r = b
    for v, h in zip(reversed(vs), reversed(hs)):
        r = mksum(v, ZERO, h, r)
    return r


# ---- matrix inverse ---------------------------------------------------------

def matinv(n, f, i, j):
    """(M^-1)[i,j] with M = lambda a,b: f(a,b), n x n"""
    if n.const == 1:
        return reciprocal(f(ZERO, ZERO))
    a, b = fresh('r'), fresh('c')
    with facts(P(a), P(b), n - 1 - P(a), n - 1 - P(b)):
        body = resimp(f(P(a), P(b)))
        return _matinv(n, a, b, body, i, j)


def _mono_div(m1, m2):
    """m1/m2 when it is a monomial with the exponents of m2 contained in m1, else None"""
    d = {a.key: (a, e) for a, e in m1}
    for a, e in m2:
        if a.key not in d:
            return None
        e1 = d[a.key][1] - e
        if e > 0 and e1 < 0 or e < 0 and e1 > 0:
            return None
        d[a.key] = (a, e1)
    return tuple(sorted(((a, e) for a, e in d.values() if e), key=lambda x: x[0].key))


def poly_div(p, q):
    """exact quotient p/q of polynomials, or None"""
    c, m, q1 = content_split(q)
    if q1 is ONE:
        return p * reciprocal(q)
    # clear negative powers of p
    cp, mp, p1 = content_split(p)
    # a term order: total degree, then keys
    atoms = sorted({a.key for mm, _ in p1.terms + q1.terms for a, e in mm})

    def order(mm):
        d = {a.key: e for a, e in mm}
        return tuple(d.get(k, 0) for k in atoms)
    lead_q = max(q1.terms, key=lambda t: order(t[0]))
    rest = p1
    quo = ZERO
    for _ in range(60):
        if not rest.terms:
            return quo * mkpoly({mp: cp}) * reciprocal(mkpoly({m: c}))
        lr = max(rest.terms, key=lambda t: order(t[0]))
        dm = _mono_div(lr[0], lead_q[0])
        if dm is None:
            return None
        t = mkpoly({dm: lr[1] / lead_q[1]})
        quo = quo + t
        rest = rest - t * q1
    return None


def _group_inner(body, dep):
    groups = {}
    for m, c in body.terms:
        inner = tuple((x, e) for x, e in m if dep(x))
        outer = tuple((x, e) for x, e in m if not dep(x))
        groups[inner] = groups.get(inner, ZERO) + mkpoly({outer: c})
    return groups


def common_scalar(body, dep):
    """a multi-term polynomial factor common to the coefficients of all dependent monomials"""
    g = _group_inner(body, dep)
    cs = [content_split(c)[2] for c in g.values()]
    if any(len(c.terms) < 2 for c in cs):
        return None
    if any(a.head in IDEM for c in cs for a in c.atoms()):
        return None
    q = min(cs, key=lambda c: (len(c.terms), c.key))
    cands = {q.key: q}
    for x in q.atoms():
        d = {}
        for m, c in q.terms:
            e = dict((a.key, e) for a, e in m).get(x.key, 0)
            d.setdefault(e, {})
            d[e][tuple((a, k) for a, k in m if a is not x)] = c
        for e, t in d.items():
            r = content_split(mkpoly(t))[2]
            if len(r.terms) >= 2:
                cands[r.key] = r
    for r in sorted(cands.values(), key=lambda r: (-len(r.terms), r.key)):
        if all(poly_div(c, r) is not None for c in cs):
            return r
    return None


def exact_div_inner(body, q, dep):
    out = ZERO
    for inner, c in _group_inner(body, dep).items():
        out = out + mkpoly({inner: Fraction(1)}) * poly_div(c, q)
    return out


def _entrywise(n, a, b, body):
    """a matrix of known small size, written out entry by entry"""
    N = int(n.const)
    out = ZERO
    for p in range(N):
        row = subst(body, {a: num(p)})
        for q in range(N):
            e = subst(row, {b: num(q)})
            if e.terms:
                out = out + eq0(P(a) - p) * eq0(P(b) - q) * e
    return out


def _matinv(n, a, b, body, i, j):
    if not body.terms:
        return P(Atom('divzero', ()))
    if n.const is not None and n.const <= 6:
        body = _entrywise(n, a, b, body)
        dl = eq0(P(a) - P(b))
        if not (body * (1 - dl)).terms:
            r = ZERO
            for p in range(int(n.const)):
                r = r + eq0(i - p) * eq0(j - p) * reciprocal(subst(body, {a: num(p), b: num(p)}))
            return r
    for x in body.atoms():
        if x.head in IDEM and a not in x.fv and b not in x.fv:
            return ite(P(x), _matinv(n, a, b, cofactor(body, x, 1), i, j), _matinv(n, a, b, cofactor(body, x, 0), i, j))
    # identity times scalar.  The scaling is read off the closed form, whose term order does not
    # depend on the names of the bound variables
    c = content_split(mklam([a, b], body).body)[0]
    m = content_split(body)[1]
    q = common_scalar(body, lambda x: a in x.fv or b in x.fv)
    if q is not None:
        return reciprocal(q) * _matinv(n, a, b, exact_div_inner(body, q, lambda x: a in x.fv or b in x.fv), i, j)
    outer = [(x, e) for x, e in m if a not in x.fv and b not in x.fv]
    # diagonal matrix: every term carries delta(a,b)
    fac = mkpoly({tuple(outer): c})
    inner = body * reciprocal(fac)
    dl = eq0(P(a) - P(b)).atom
    if all(any(x is dl for x, e in mm) for mm, _ in inner.terms):
        diag = subst(cofactor(inner, dl, 1), {b: P(a)})
        return reciprocal(fac) * eq0(i - j) * reciprocal(subst(diag, {a: i}))
    lam = mklam([a, b], inner)
    return reciprocal(fac) * raw_app('matinv', (n, lam, i, j))


@smart('matinv')
def _s_matinv(n, lam, i, j, kind='num'):
    if n.const == 1:
        return reciprocal(open_lam(lam, [ZERO, ZERO]))
    vs, body = open_lam(lam)
    with facts(P(vs[0]), P(vs[1]), n - 1 - P(vs[0]), n - 1 - P(vs[1])):
        body = resimp(body)
        if n.const is not None and i.const is not None and j.const is not None and 1 < n.const <= 8:
            r = _matinv_of_block(int(n.const), lam, int(i.const), int(j.const))
            if r is not None:
                return r
        return _matinv(n, vs[0], vs[1], body, i, j)


# largest matrix whose inverse is written out (set by scenarios with small matrices)
EXPLICIT_INVERSE = [0]


def det(B):
    if not B:
        return ONE
    r = ZERO
    for q, x in enumerate(B[0]):
        if x.terms:
            m = det([row[:q] + row[q + 1:] for row in B[1:]])
            r = r + (x * m if q % 2 == 0 else -(x * m))
    return r


def _matinv_of_block(n, lam, i, j):
    """entry (i, j) of the inverse when the matrix falls apart into blocks"""
    A = [[resimp(open_lam(lam, [num(a), num(b)])) for b in range(n)] for a in range(n)]
    todo, blocks = set(range(n)), []
    while todo:
        new = {min(todo)}
        blk = set()
        while new:
            a = new.pop()
            blk.add(a)
            new |= {b for b in range(n) if b not in blk and not (is_zero(A[a][b]) and is_zero(A[b][a]))}
        todo -= blk
        blocks.append(sorted(blk))
    blk = next(x for x in blocks if i in x)
    if j not in blk:
        return ZERO
    m = len(blk)
    if m <= EXPLICIT_INVERSE[0]:
        B = [[A[p][q] for q in blk] for p in blk]
        i, j = blk.index(i), blk.index(j)
        minor = det([[B[p][q] for q in range(m) if q != i] for p in range(m) if p != j])
        return (minor if (i + j) % 2 == 0 else -minor) * reciprocal(det(B))
    if len(blocks) == 1:
        return None

    def at(a, b):
        r = ZERO
        for p in range(m):
            for q in range(m):
                x = A[blk[p]][blk[q]]
                if not is_zero(x):
                    r = r + eq0(a - p) * eq0(b - q) * x
        return r
    a, b = fresh('r'), fresh('c')
    with facts(P(a), P(b), m - 1 - P(a), m - 1 - P(b)):
        inner = at(P(a), P(b))
    return app('matinv', (num(m), mklam([a, b], inner), num(blk.index(i)), num(blk.index(j))))


# ---- search / extremum ------------------------------------------------------

def mkany(n, lam):
    """exists k in [0,n): lam(k)"""
    vs, b = open_lam(lam)
    return mkany_v(vs[0], n, b)


def mkany_v(v, n, b):
    if b.const is not None:
        if b.const == 0:
            return ZERO
        return lt0(-n)
    if v not in b.fv:
        return b * lt0(-n)
    return P(Atom('ind', ('any', n, mklam([v], b))))


def mkfirst(v, n, cond, val):
    """val at the first k in [0,n) with cond(k)."""
    if not isinstance(val, Poly):
        raise TypeError
    if cond is ONE:
        return subst(val, {v: ZERO})
    if v not in val.fv:
        return val
    # first over a linear combination: distribute over scalar-free structure
    return raw_app('first', (n, mklam([v], cond), mklam([v], val)), _kind_of(val))


@smart('first')
def _s_first(n, cl, vl, kind='num'):
    v = fresh('f')
    return mkfirst(v, n, open_lam(cl, [P(v)]), open_lam(vl, [P(v)]))


def _kind_of(p):
    ks = {a.kind for a in p.atoms() if a.head not in IDEM}
    if len(ks) == 1:
        return ks.pop()
    if p.isint:
        return 'int'
    return 'num' if not ks or ks <= {'num', 'int'} else 'obj'


kind_of = _kind_of


# names given by a scenario to places of minima (see checks/c11.py)
ARGMIN_NAMES = {}


def _sign_of_slope(n, v, body):
    """+1/-1 when body is linear in v with a coefficient of known sign"""
    sg = set()
    for m, c in body.terms:
        dep = [(x, e) for x, e in m if v in x.fv]
        if not dep:
            continue
        if len(dep) > 1 or dep[0][0] is not v or dep[0][1] != 1:
            return 0
        if not all(x in POSITIVE or x in n.fv or x.head in ('sqrt', 'exp') for x, e in m if x is not v):
            return 0
        sg.add(1 if c > 0 else -1)
    return sg.pop() if len(sg) == 1 else 0


def _increasing(n, v, body):
    """a sum of positive multiples of powers of v (v >= 0)"""
    some = False
    for m, c in body.terms:
        if not any(v in x.fv for x, _ in m):
            continue
        if c < 0 or not all(x is v and e > 0 or v not in x.fv and (x in POSITIVE or x in n.fv or x.head in ('sqrt', 'exp')) for x, e in m):
            return False
        some = True
    return some


def _without_special_case(v, body):
    """a value given separately at one place where the general formula gives the same"""
    for a in list(body.atoms()):
        if a.head == 'eq0' and v in a.fv:
            q = a.args[0]
            c = coef_linear(q, v)
            if c is not None:
                general = cofactor(body, a, 0)
                if subst(general, {v: c}) is resimp(subst(cofactor(body, a, 1), {v: c})):
                    return general
    return body


def coef_linear(q, v):
    """the solution of q = 0 for v when q is v plus or minus something"""
    for s in (1, -1):
        r = P(v) - scale(q, s)
        if v not in r.fv:
            return r
    return None


def mkargmin(n, v, body):
    body = _without_special_case(v, resimp(body))
    s = _sign_of_slope(n, v, body)
    if s:
        return ZERO if s > 0 else n - 1
    a = body.atom
    if a is not None and a.head in ('sqrt',):
        body = a.args[0]
    elif len(body.terms) == 1:
        # a positive factor that does not vary does not move the minimum
        m, c = body.terms[0]
        dep = [(x, e) for x, e in m if v in x.fv]
        rest = [(x, e) for x, e in m if v not in x.fv]
        if c > 0 and len(dep) == 1 and dep[0][0].head in ('sqrt', 'abs') and dep[0][1] == 1 and all(
                x in POSITIVE or x in n.fv or x.head in ('sqrt', 'abs', 'exp') for x, e in rest):
            q = dep[0][0].args[0]
            body = q if dep[0][0].head == 'sqrt' else mul(q, q)
    x = _zero_of_distance(n, v, body)
    if x is not None:
        return x
    if _increasing(n, v, body):
        return ZERO
    if _increasing(n, v, resimp(subst(body, {v: n - 1 - P(v)}))):
        return n - 1
    r = raw_app('argmin', (n, mklam([v], body)), 'int')
    return ARGMIN_NAMES.get(r.key, r)


def _zero_of_distance(n, v, body):
    """X with body(v) = sum of (x(v)-x(X))^2: the minimum of a squared distance to one of the
    points themselves is that point (points are assumed distinct)"""
    if not body.terms or v not in body.fv:
        return None
    ats = [a for a in body.atoms() if v in a.fv]
    if not ats:
        return None
    cands = []
    for a in ats:
        if a is v:
            continue
        for b in body.atoms():
            if b.head == a.head == 'rd' and b is not a and len(b.args) == len(a.args):
                d = [(x, y) for x, y in zip(a.args, b.args) if node_key(x) != node_key(y)]
                if len(d) == 1 and isinstance(d[0][0], Poly):
                    s = d[0][1] - (d[0][0] - P(v))
                    if v not in s.fv and s not in cands:
                        cands.append(s)
    if v in ats and len(ats) == 1:
        # a quadratic in v itself: c2 (v - X)^2
        c = {0: ZERO, 1: ZERO, 2: ZERO}
        for m, k in body.terms:
            e = dict(m).get(v, 0)
            if e not in c:
                return None
            c[e] = c[e] + mkpoly({tuple((x, y) for x, y in m if x is not v): k})
        c2 = c[2]
        if all(k > 0 and all(e % 2 == 0 for _, e in m) for m, k in c2.terms) and len(c2.terms) == 1 and c[1].terms:
            s = div(-c[1], scale(c2, 2))
            if is_zero(c[0] - mul(c2, mul(s, s))):
                cands.append(s)
                ats = []
    for s in cands:
        if not (s.isint and is_zero(subst(body, {v: s}))):
            continue
        if not (prove_ge0(s) and prove_ge0(n - 1 - s)):
            continue
        t = ZERO
        for a in ats:
            q = P(a) - subst(P(a), {v: s})
            t = t + mul(q, q)
        if not ats or is_zero(body - t):
            return s
    return None


@smart('argmin')
def _s_argmin(n, lam, kind='int'):
    vs, b = open_lam(lam)
    return mkargmin(n, vs[0], b)


# ---- calls of function values -------------------------------------------------

def fun(vars_, body):
    return P(Atom('fun', (mklam(vars_, body),), 'fun'))


def call(f, args):
    """Apply a function-valued term; linear in the indicator-weighted choice of f."""
    r = ZERO
    for m, c in f.terms:
        fn = [a for a, e in m if a.kind == 'fun' and a.head not in IDEM]
        if len(fn) != 1:
            return raw_app('call', (f,) + tuple(args))
        rest = mkpoly({tuple(x for x in m if x[0] is not fn[0]): c})
        a = fn[0]
        if a.head == 'fun' and a.args[0].n == len(args):
            r = r + rest * open_lam(a.args[0], list(args))
        else:
            r = r + rest * raw_app('call', (P(a),) + tuple(args))
    return r


@smart('call')
def _s_call(f, *args, kind='num'):
    return call(f, args)


@smart('item')
def _s_item(o, k, kind='obj'):
    return raw_app('item', (o, k), kind)


# ---- vectors of poles ---------------------------------------------------------

def _vec_parts(a):
    """the parts of a one-dimensional value put together by append: (None, scalar) or (n, lam)"""
    if a.head == 'arr' and len(a.args[0]) == 1:
        return [(a.args[0][0], a.args[1])]
    if a.head == 'append':
        out = []
        for y in a.args:
            ya = y.atom
            if ya is not None and ya.kind == 'vec' or ya is not None and ya.head in ('arr', 'append'):
                q = _vec_parts(ya)
                if q is None:
                    return None
                out += q
            elif not any(b.kind in ('vec', 'obj', 'mat') for b in y.atoms()):
                out.append((None, y))
            else:
                return None
        return out
    return None


@smart('vsum')
def mkvsum(p, kind='num'):
    """sum over the (implicit) pole axis of an entry of an object array."""
    r = ZERO
    for m, c in p.terms:
        vecs = [(a, e) for a, e in m if a.kind == 'vec']
        rest = mkpoly({tuple(x for x in m if x[0].kind != 'vec'): c})
        if not vecs:
            r = r + rest       # a plain number: np.sum(x) == x
        else:
            parts = [_vec_parts(a) for a, e in vecs]
            x = None
            if all(q is not None for q in parts) and all(e > 0 for a, e in vecs):
                x = ZERO
                for seg in zip(*parts):
                    ns = {n.key if n is not None else None for n, _ in seg}
                    if len(ns) != 1 or len({len(q) for q in parts}) != 1:
                        x = None
                        break
                    if seg[0][0] is None:
                        t = ONE
                        for (_, b), (a, e) in zip(seg, vecs):
                            t = mul(t, ipow(b, e))
                        x = add(x, t)
                    else:
                        k = fresh('p')
                        t = ONE
                        for (_, b), (a, e) in zip(seg, vecs):
                            t = mul(t, ipow(open_lam(b, [P(k)]), e))
                        x = add(x, mksum(k, ZERO, seg[0][0], t))
            if x is None and len(vecs) == 1 and vecs[0][1] == 1 and vecs[0][0].head == 'append':
                x = ZERO
                for y in vecs[0][0].args:
                    x = add(x, mkvsum(y))
            if x is None:
                x = P(Atom('vsum', (mkpoly({tuple(vecs): Fraction(1)}),)))
            r = r + rest * x
    return r


# ---------------------------------------------------------------- substitution

def _map_poly(p, f):
    out = ZERO
    changed = False
    cache = {}
    for m, c in p.terms:
        cur = num(c)
        for a, e in m:
            r = cache.get(a.key)
            if r is None:
                r = f(a)
                cache[a.key] = r
            if e > 0:
                for _ in range(e):
                    cur = mul(cur, r)
            else:
                cur = mul(cur, reciprocal(ipow(r, -e)))
        out = add(out, cur)
    return out


def subst(node, m, cache=None):
    """Substitute var atoms by polys."""
    if cache is None:
        cache = {}
        keys = frozenset(m)
        cache['keys'] = keys
    keys = cache['keys']
    if isinstance(node, tuple):
        return tuple(subst(x, m, cache) for x in node)
    if not isinstance(node, (Poly, Atom, Lam)):
        return node
    if not (node.fv & keys):
        return node
    r = cache.get(node.key)
    if r is not None:
        return r
    if isinstance(node, Poly):
        r = _map_poly(node, lambda a: _subst_atom(a, m, cache))
    elif isinstance(node, Lam):
        vs, b = open_lam(node)
        r = mklam(vs, subst(b, m, cache))
    else:
        r = _subst_atom(node, m, cache)
    cache[node.key] = r
    return r


def _subst_atom(a, m, cache):
    if a in m:
        return topoly(m[a])
    if not (a.fv & cache['keys']):
        return P(a)
    nargs = tuple(subst(x, m, cache) for x in a.args)
    return rebuild(a.head, nargs, a.kind)


def resimp(node, cache=None):
    """Rebuild a term so that the current facts are used."""
    if cache is None:
        cache = {}
    if isinstance(node, tuple):
        return tuple(resimp(x, cache) for x in node)
    if isinstance(node, Poly):
        r = cache.get(node.key)
        if r is None:
            r = _map_poly(node, lambda a: _resimp_atom(a, cache))
            cache[node.key] = r
        return r
    return node


def _resimp_atom(a, cache):
    if a.head in ('lt0', 'eq0'):
        return rebuild(a.head, a.args, a.kind)
    if any(isinstance(x, Poly) and _has_ind(x) for x in a.args):
        nargs = tuple(resimp(x, cache) if isinstance(x, Poly) else x for x in a.args)
        return rebuild(a.head, nargs, a.kind)
    return P(a)


def _has_ind(p):
    for a in p.atoms():
        if a.head in ('lt0', 'eq0'):
            return True
        for x in a.args:
            if isinstance(x, Poly) and _has_ind(x):
                return True
    return False


# ---------------------------------------------------------------- comparison

def is_zero(p, rounds=6):
    """Zero test of a rational expression: clear reciprocal atoms, then compare."""
    for _ in range(rounds):
        if not p.terms:
            return True
        invs = {}
        for m, _c in p.terms:
            for a, e in m:
                if a.head == 'inv' and e > 0:
                    invs[a.key] = (a, max(e, invs.get(a.key, (a, 0))[1]))
                elif e < 0:
                    invs[a.key] = (a, min(e, invs.get(a.key, (a, 0))[1]))
        if not invs:
            return False
        for a, e in invs.values():
            if a.head == 'inv' and e > 0:
                q = a.args[0]
                out = ZERO
                for m, c in p.terms:
                    k = 0
                    rest = []
                    for x, xe in m:
                        if x is a:
                            k = xe
                        else:
                            rest.append((x, xe))
                    out = out + mkpoly({tuple(rest): c}) * ipow(q, e - k)
                p = out
            else:
                p = p * mkpoly({((a, -e),): Fraction(1)})
    return not p.terms


def same(a, b):
    if isinstance(a, Lam) and isinstance(b, Lam):
        return a is b
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return is_zero(a - b)
    return node_key(a) == node_key(b)


# ---------------------------------------------------------------- printing

def show(n, depth=0, maxdepth=9):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, depth, maxdepth) for x in n) + ')'
    if isinstance(n, Lam):
        return 'λ%s.%s' % (''.join('$%d%s' % (n.height, 'abcd'[i]) for i in range(n.n)), show(n.body, depth + 1, maxdepth))
    if isinstance(n, Atom):
        if depth > maxdepth:
            return '…'
        h, a = n.head, n.args
        if h == 'var':
            return a[0]
        if h == 'bv':
            return '$%d%s' % (a[0], 'abcd'[a[1]])
        if h == 'str':
            return repr(a[0])
        if h == 'none':
            return 'None'
        if h == 'lt0':
            return '[%s<0]' % show(a[0], depth + 1, maxdepth)
        if h == 'eq0':
            return '[%s==0]' % show(a[0], depth + 1, maxdepth)
        if h == 'beq':
            return '[%s==%s]' % (show(a[0], depth + 1, maxdepth), show(a[1], depth + 1, maxdepth))
        if h == 'item':
            return '%s[%s]' % (show(a[0], depth + 1, maxdepth), show(a[1], depth + 1, maxdepth))
        if h == 'rd':
            return '%s[%s]' % (show(a[0], depth + 1, maxdepth), ','.join(show(x, depth + 1, maxdepth) for x in a[1:]))
        if h == 'attr':
            return '%s.%s' % (show(a[0], depth + 1, maxdepth), a[1])
        return '%s(%s)' % (h, ', '.join(show(x, depth + 1, maxdepth) for x in a))
    if isinstance(n, Poly):
        if not n.terms:
            return '0'
        if depth > maxdepth:
            return '…'
        parts = []
        for m, c in n.terms:
            s = '·'.join(show(a, depth + 1, maxdepth) + ('' if e == 1 else '^%d' % e) for a, e in m)
            cs = str(c) if c.denominator == 1 else '(%s)' % c
            if not s:
                parts.append(cs)
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append('-' + s)
            else:
                parts.append(cs + '·' + s)
        out = ' + '.join(parts).replace('+ -', '- ')
        return '(%s)' % out if depth and len(parts) > 1 else out
    return repr(n)
