"""Scenario construction and comparison of abstract states."""
from .interp import *
from . import interp as _in

import os
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/python/src')


def ivar(name):
    return P(Atom('var', (name,), 'int'))


def nvar(name):
    return P(Atom('var', (name,), 'num'))


def symarr(I, name, shape, dtype='f', kind='num', content=None):
    base = P(Atom('var', (name,), 'obj'))
    if content is None:
        def content(idx):
            return app('rd', (base,) + tuple(idx), kind)
    a = I.new_arr(tuple(topoly(s) for s in shape), content, dtype)
    key = ('c', a.cell)
    I.base[key] = I.state.d.pop(key)
    I.state.w.pop(key, None)
    return a


def newobj(I, cls, name, **attrs):
    id = I.new_id()
    o = Obj(id, cls)
    I.objnames[id] = name
    for k, v in attrs.items():
        I.base[('a', id, k)] = v
    return o


# ---------------------------------------------------------------- comparison

def contradictory():
    """Do the current facts exclude each other (linear integer reasoning, bounded)?"""
    fs = [f for f in FACTS]
    for f in fs:
        # -f-1 >= 0 provable from the others?
        c = f.const
        if c is not None and c < 0:
            return True
    for i, f in enumerate(fs):
        del FACTS[i]
        try:
            if prove_ge0(-f - 1 if f.isint else -f - Fraction(1, 10 ** 9)):
                return True
        finally:
            FACTS.insert(i, f)
    return False


def split_atoms(p, ivars):
    """indicator atoms over integer forms anywhere in p, the simplest first"""
    found = {}
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Lam):
            if x.key not in seen:
                seen.add(x.key)
                rec(x.body)
        elif isinstance(x, Poly):
            if x.key not in seen:
                seen.add(x.key)
                for a in x.atoms():
                    rec(a)
        elif isinstance(x, Atom):
            if x.key in seen:
                return
            seen.add(x.key)
            if x.head in ('lt0', 'eq0') and x.args[0].isint and not has_bv(x):
                found[x.key] = x
            for y in x.args:
                rec(y)
    rec(p)
    return sorted(found.values(), key=lambda a: (a.head != 'eq0', len(a.args[0].terms), a.key))


def has_bv(x):
    if isinstance(x, tuple):
        return any(has_bv(y) for y in x)
    if isinstance(x, (Poly,)):
        return any(has_bv(a) for a in x.atoms())
    if isinstance(x, Lam):
        return False
    if isinstance(x, Atom):
        return x.head == 'bv' or any(has_bv(y) for y in x.args)
    return False


class Neq:
    """A region of the index space in which the two terms differ."""

    def __init__(self, region, a, b):
        self.region, self.a, self.b = region, a, b
        self.facts = list(FACTS)

    @property
    def opaque(self):
        return self.a.opaque | self.b.opaque

    def __repr__(self):
        return 'where %s: %s  vs  %s' % (' and '.join(self.region) or 'always', show(self.a, maxdepth=14)[:600], show(self.b, maxdepth=14)[:600])


def compare(a, b, depth=8, region=()):
    """Region-wise equality of two terms: list of Neq (empty when equal)."""
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a is b:
            return []
        a, b = resimp(a), resimp(b)
        if same(a, b):
            return []
        d = a - b
        ats = split_atoms(d, None)
        if not ats or depth == 0:
            a2, b2 = deep_resimp(a), deep_resimp(b)
            if same(a2, b2):
                return []
            return [Neq(region, a2, b2)]
        x = ats[0]
        out = []
        p = x.args[0]
        if x.head == 'eq0':
            sol = None
            for v in sorted(p.fv, key=lambda z: z.key):
                if v.kind == 'int':
                    s = solve_for(p, v)
                    if s is not None and v not in s.fv:
                        sol = (v, s)
                        break
            if sol is None:
                with facts(p, -p):
                    if not contradictory():
                        out += compare(set_ind(a, x, 1), set_ind(b, x, 1), depth - 1, region + ('%s = 0' % show(p),))
            else:
                m = {sol[0]: sol[1]}
                old = list(FACTS)
                FACTS[:] = [subst(f, m) for f in old]
                FACTS[:] = [f for f in FACTS if f.const is None or f.const < 0]
                try:
                    if not contradictory():
                        out += compare(subst(set_ind(a, x, 1), m), subst(set_ind(b, x, 1), m), depth - 1, region + ('%s = %s' % (show(P(sol[0])), show(sol[1])),))
                finally:
                    FACTS[:] = old
            pos = None
            if prove_ge0(p):
                pos = p - 1
            elif prove_ge0(-p):
                pos = -p - 1
            if pos is not None:
                with facts(pos):
                    if not contradictory():
                        out += compare(set_ind(a, x, 0), set_ind(b, x, 0), depth - 1, region + ('%s != 0' % show(p),))
            else:
                out += compare(set_ind(a, x, 0), set_ind(b, x, 0), depth - 1, region + ('%s != 0' % show(p),))
        else:
            with facts(-p - 1):
                if not contradictory():
                    out += compare(set_ind(a, x, 1), set_ind(b, x, 1), depth - 1, region + ('%s < 0' % show(p),))
            with facts(p):
                if not contradictory():
                    out += compare(set_ind(a, x, 0), set_ind(b, x, 0), depth - 1, region + ('%s >= 0' % show(p),))
        return out
    return [] if same(a, b) else [Neq(region, a, b)]


def inverses(x):
    """matrix inverses (closed binders only) occurring in a term: lambda key -> atom"""
    out = {}
    seen = set()

    def rec(y):
        if isinstance(y, tuple):
            for z in y:
                rec(z)
        elif isinstance(y, Lam):
            rec(y.body)
        elif isinstance(y, Poly):
            if y.key not in seen:
                seen.add(y.key)
                for z in y.atoms():
                    rec(z)
        elif isinstance(y, Atom):
            if y.key not in seen:
                seen.add(y.key)
                for z in y.args:
                    rec(z)
                if y.head == 'matinv' and not free_bvs(y.args[1]):
                    out.setdefault(y.args[1].key, y)
    rec(x)
    return out


def unify(got, want, rounds=4):
    """replace matrix inverses of `got` by the inverses of `want` whose matrices agree entry by entry"""
    for _ in range(rounds):
        g, w = inverses(got), inverses(want)
        done = False
        for k, x in g.items():
            if k in w:
                continue
            for kw, y in w.items():
                if kw in g or not same(x.args[0], y.args[0]):
                    continue
                r, c = fresh('r'), fresh('c')
                n = x.args[0]
                with facts(P(r), P(c), n - 1 - P(r), n - 1 - P(c)):
                    bx = open_lam(x.args[1], (P(r), P(c)))
                    by = open_lam(y.args[1], (P(r), P(c)))
                    if compare(bx, by):
                        continue
                got = replace_lam(got, k, y.args[1])
                done = True
                break
            if done:
                break
        if not done:
            break
    return got


def replace_lam(p, key, new):
    cache = {}

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if isinstance(y, Lam):
            if y.key == key:
                return new
            vs, b = open_lam(y)
            return mklam(vs, rec(b))
        if isinstance(y, Poly):
            r = cache.get(y.key)
            if r is None:
                from .terms import _map_poly
                r = cache[y.key] = _map_poly(y, at)
            return r
        return y

    def at(a):
        if not any(isinstance(z, (Poly, tuple, Lam)) for z in a.args):
            return P(a)
        n = tuple(rec(z) for z in a.args)
        if all(node_key(q) == node_key(w) for q, w in zip(n, a.args)):
            return P(a)
        return rebuild(a.head, n, a.kind)
    return rec(p)


def set_ind(p, x, val):
    """p with the indicator x decided (at any depth)"""
    cache = {}
    v = ONE if val else ZERO

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if isinstance(y, Lam):
            vs, b = open_lam(y)
            return mklam(vs, rec(b))
        if isinstance(y, Poly):
            r = cache.get(y.key)
            if r is None:
                r = _map(y)
                cache[y.key] = r
            return r
        return y

    def _map(y):
        from .terms import _map_poly
        return _map_poly(y, at)

    def at(a):
        if a is x:
            return v
        if not any(isinstance(z, (Poly, tuple, Lam)) for z in a.args):
            return P(a)
        n = tuple(rec(z) for z in a.args)
        if all(node_key(q) == node_key(w) for q, w in zip(n, a.args)):
            return P(a)
        return rebuild(a.head, n, a.kind)
    return rec(p)


def deep_resimp(p):
    """Rebuild every application under the current facts (also below binders)."""
    cache = {}

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if isinstance(y, Lam):
            vs, b = open_lam(y)
            return mklam(vs, rec(b))
        if isinstance(y, Poly):
            r = cache.get(y.key)
            if r is None:
                from .terms import _map_poly
                r = _map_poly(y, at)
                cache[y.key] = r
            return r
        return y

    def at(a):
        if not a.args or a.head in ('var', 'bv', 'str', 'cls', 'opaque', 'obj'):
            return P(a)
        return rebuild(a.head, tuple(rec(z) for z in a.args), a.kind)
    return rec(p)


# ---------------------------------------------------------------- python containers

def pyval(I, x):
    """abstract value of a Python literal built from terms and abstract values"""
    if isinstance(x, dict):
        return I.new_dict([((), ONE, pyval(I, k), pyval(I, v)) for k, v in x.items()])
    if isinstance(x, list):
        return I.new_list([Seg((), ONE, pyval(I, v)) for v in x])
    if isinstance(x, tuple):
        return Tup([pyval(I, v) for v in x])
    if isinstance(x, str):
        return string(x)
    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
        return topoly(x)
    return x


def symlist(I, nm, n, kind='num'):
    """list of n symbolic elements nm[0..n-1]"""
    k = fresh('p')
    return I.new_list([Seg(((k, topoly(n)),), ONE, app('rd', (P(Atom('var', (nm,), 'obj')), P(k)), kind))])


def generalise(I, term, symbol):
    """replace every stored occurrence of exactly this value by an arbitrary symbol: what is then
    shown holds for any value"""
    for store in (I.state.d, I.base):
        for k, v in list(store.items()):
            if isinstance(v, Poly) and v is term:
                store[k] = symbol
