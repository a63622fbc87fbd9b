"""Abstract interpreter: Python source (AST) -> value-dependence terms.

One pass per function body.  Branches are joined at their merge point with gated values
(no path enumeration), loops over unknown ranges are summarised (sums, per-index updates,
first-match searches, order-preserving accumulations), calls into the analysed package are
inlined, everything unmodelled becomes an opaque term.  The analysed code is never imported
or executed.
"""
import ast
import os
from .values import *
from . import npmodel

UNDEF = object()
PRE = object()


class Dead(Exception):
    pass


class Event:
    __slots__ = ('name', 'args', 'loops', 'guard', 'site', 'data')

    def __init__(self, name, args, loops, guard, site, data=None):
        self.name, self.args, self.loops, self.guard, self.site = name, args, loops, guard, site
        self.data = data

    def norm(self):
        """alpha-normal form: (loops, guard, args) closed over the loop variables"""
        vs = [v for v, _ in self.loops]
        body = (tuple(n for _, n in self.loops), self.guard, tuple(self.args))
        if not vs:
            return body
        return mklam(vs, body)

    def __repr__(self):
        return 'Event(%s, %s | for %s if %s @%s)' % (self.name, show(tuple(self.args)), [(show(v), show(n)) for v, n in self.loops], show(self.guard), self.site)


class Package:
    """The parsed source tree."""

    def __init__(self, root, prefix='src', extra=None):
        self.root, self.prefix = root, prefix
        self.asts = {}
        self.files = {}
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    try:
                        self.asts[rel] = ast.parse(open(p).read(), p)
                        self.files[rel] = p
                    except SyntaxError:
                        raise

    def module_of_import(self, modname, level, cur):
        if level:
            return modname if modname in self.asts else None
        if modname.startswith(self.prefix + '.'):
            m = modname[len(self.prefix) + 1:]
            return m if m in self.asts else None
        if modname in self.asts:
            return modname
        return None


BUILTINS = {'range', 'len', 'int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'type', 'sum', 'min', 'max', 'abs',
            'enumerate', 'zip', 'sorted', 'reversed', 'isinstance', 'print', 'super', 'any', 'all', 'map', 'filter',
            'open', 'Exception', 'ValueError', 'AssertionError', 'KeyError', 'TypeError', 'IndexError', 'RuntimeError',
            'NotImplementedError', 'complex', 'bool', 'object', 'input', 'round', 'hasattr', 'getattr', 'setattr', 'id',
            'frozenset', 'iter', 'next', 'divmod', 'pow', 'slice', 'callable', 'repr', 'hash', 'property', 'staticmethod',
            'classmethod', 'vars', 'warnings', 'ZeroDivisionError', 'AttributeError', 'StopIteration', 'OSError', 'IOError'}


class Interp:
    def __init__(self, pkg, boundary=None, schema=None, site_prefix=''):
        self.pkg = pkg
        self.boundary = boundary or (lambda cls, name: False)
        self.schema = schema or {}
        self.state = State()
        self.base = {}
        self.events = []
        self.path = ONE
        self.loops = []
        self.nid = 0
        self.frames = {}          # fid -> parent fid or None, module
        self.modenv = {}
        self.callstack = []
        self.tainted = []
        self.hazards = []
        self.touched = set()      # functions analysed
        self.ncalls = 0
        self.active_vars = []
        self.site = ('?', '?', 0)
        self.objnames = {}
        self.cur_frame = None
        self.cur_module = None
        self.depth = 0
        self.opaques = []
        self.cuts = {}
        self.defs = {}

    # ------------------------------------------------------------ store

    def new_id(self):
        self.nid += 1
        return self.nid

    def get(self, key, default=UNDEF):
        v = self.state.d.get(key, UNDEF)
        if v is UNDEF:
            v = self.base.get(key, UNDEF)
        if v is UNDEF:
            return default
        return v

    def put(self, key, v):
        if self.cuts and key in self.cuts:
            v = self.name_content(self.cuts[key], v)
        self.state.d[key] = v
        self.state.w[key] = self.site

    # every store into a cut cell is given a name: later contents mention the name instead of the
    # (large) stored term, which is kept as the definition of the name
    def name_content(self, cut, content):
        base, kind = cut
        nm = '%s@%d' % (base, len(self.defs))
        self.defs[nm] = (content, list(FACTS))
        b = P(Atom('var', (nm,), 'obj'))
        return Content(lambda idx: app('rd', (b,) + tuple(idx), kind))

    def expand(self, p):
        """replace names of cut stores by their definitions, to any depth"""
        if not self.defs:
            return p
        from .terms import _map_poly
        cache = {}

        def rec(y):
            if isinstance(y, tuple):
                return tuple(rec(z) for z in y)
            if isinstance(y, Lam):
                vs, b = open_lam(y)
                return mklam(vs, rec(b))
            if isinstance(y, Poly):
                r = cache.get(y.key)
                if r is None:
                    r = _map_poly(y, at)
                    cache[y.key] = r
                return r
            return y

        def at(a):
            if a.head == 'rd':
                b = a.args[0].atom
                if b is not None and b.head == 'var' and b.args[0] in self.defs:
                    c, fs = self.defs[b.args[0]]
                    return rec(c(tuple(rec(z) for z in a.args[1:])))
            if not a.args or a.head in ('var', 'bv', 'str', 'cls'):
                return P(a)
            n = tuple(rec(z) for z in a.args)
            if all(node_key(q) == node_key(w) for q, w in zip(n, a.args)):
                return P(a)
            return rebuild(a.head, n, a.kind)
        return rec(p)

    def opaque(self, reason, args=(), kind='obj'):
        self.opaques.append((reason, self.site))
        return opaque(reason, tuple(a for a in args if isinstance(a, (Poly, Lam, str, tuple))), kind)

    # ------------------------------------------------------------ arrays

    def new_arr(self, shape, f, dtype='f'):
        id = self.new_id()
        c = f if isinstance(f, Content) else Content(f)
        self.put(('c', id), c)
        return Arr(id, [('ax', d, ZERO, 1) for d in range(len(shape))], tuple(topoly(s) for s in shape), dtype)

    def content(self, a):
        """a reader idx->Poly of the current contents (a snapshot)."""
        c = self.get(('c', a.cell))
        ident = all(x[0] == 'ax' and x[1] == d and x[2].const == 0 and x[3] == 1 for d, x in enumerate(a.axes)) and len(a.axes) == len(a.shape)
        if ident:
            return c
        return lambda idx: c(a.base_index(idx))

    def read(self, a, idx):
        return self.get(('c', a.cell))(a.base_index(tuple(topoly(i) for i in idx)))

    def store_view(self, a, valf):
        """a[...] = value for the whole view a; valf(view idx) -> Poly"""
        old = self.get(('c', a.cell))
        axes, shape = a.axes, a.shape
        ident = all(x[0] == 'ax' and x[1] == d and x[2].const == 0 and x[3] == 1 for d, x in enumerate(axes)) and len(axes) == len(shape)
        if ident:
            self.put(('c', a.cell), Content(valf))
            return
        nview = len(shape)

        def f(b):
            cond = ONE
            v = [ZERO] * nview
            for bi, ax in zip(b, axes):
                if ax[0] == 'fix':
                    cond = cond * eq(bi, ax[1])
                else:
                    _, va, off, step = ax
                    if step == 1:
                        i = bi - off
                        v[va] = i
                        cond = cond * b_not(lt0(i)) * lt0(i - shape[va])
                    else:
                        i = scale(bi - off, Fraction(1, step))
                        v[va] = i
                        if step == -1:
                            cond = cond * b_not(lt0(i)) * lt0(i - shape[va])
                        else:
                            cond = cond * ind('strided', (bi, off, num(step), shape[va]))
                if not cond.terms:
                    return old(b)
            val = valf(tuple(v))
            if cond.const == 1:
                return val
            return ite(cond, val, old(b))
        self.put(('c', a.cell), Content(f))

    def index_array(self, a, key):
        """Basic indexing: returns Arr view, or Poly for full scalar indexing, or None when unsupported."""
        keys = list(key.vals) if isinstance(key, Tup) else [key]
        n_real = sum(1 for k in keys if not (k is NEWAXIS or k is ELLIPSIS))
        if any(k is ELLIPSIS for k in keys):
            i = next(j for j, k in enumerate(keys) if k is ELLIPSIS)
            keys[i:i + 1] = [Slice(None, None, None)] * (a.ndim - n_real)
        else:
            keys += [Slice(None, None, None)] * (a.ndim - n_real)
        if sum(1 for k in keys if k is not NEWAXIS) != a.ndim:
            return None
        axmap = []       # per old view axis: ('fix', idx) or ('ax', new axis, off, step)
        shape = []
        d = 0
        for k in keys:
            if k is NEWAXIS:
                shape.append(ONE)
                continue
            n = a.shape[d]
            if isinstance(k, Slice):
                step = 1
                if k.step is not None:
                    s = k.step.const
                    if s is None or s.denominator != 1 or s == 0:
                        return None
                    step = int(s)
                if step == 1:
                    lo = ZERO if k.lo is None else norm_bound(k.lo, n)
                    hi = n if k.hi is None else norm_bound(k.hi, n)
                    shape.append(hi - lo)
                    axmap.append(('ax', len(shape) - 1, lo, 1))
                elif step == -1 and k.lo is None and k.hi is None:
                    shape.append(n)
                    axmap.append(('ax', len(shape) - 1, n - 1, -1))
                else:
                    return None
            elif isinstance(k, Poly):
                axmap.append(('fix', norm_index(k, n)))
            else:
                return None
            d += 1
        axes = []
        for ax in a.axes:
            if ax[0] == 'fix':
                axes.append(ax)
            else:
                _, va, off, st = ax
                m = axmap[va]
                if m[0] == 'fix':
                    axes.append(('fix', off + scale(m[1], st)))
                else:
                    axes.append(('ax', m[1], off + scale(m[2], st), st * m[3]))
        v = Arr(a.cell, axes, shape, a.dtype)
        if not shape:
            return self.read(v, ())
        return v

    # ------------------------------------------------------------ conversion

    def to_term(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, SymObj):
            return v.term
        if isinstance(v, Arr):
            c = self.content(v)
            if not v.shape:
                return c(())
            vs = [fresh('a') for _ in v.shape]
            with facts(*([P(x) for x in vs] + [n - 1 - P(x) for x, n in zip(vs, v.shape)])):
                body = c(tuple(P(x) for x in vs))
            return app('arr', (v.shape, mklam(vs, body)), 'obj')
        if isinstance(v, Tup):
            return app('tuple', tuple(self.to_term(x) for x in v.vals), 'obj')
        if isinstance(v, Lst):
            return app('listval', tuple(self.seg_term(s) for s in self.get(('l', v.id))), 'obj')
        if isinstance(v, Seq):
            return app('listval', tuple(self.seg_term(s) for s in v.segs), 'obj')
        if isinstance(v, Dct):
            ents = []
            for e in self.get(('d', v.id)):
                if e is PRE:
                    ents.append('pre')
                    continue
                ents.append(self.seg_term(Seg(e[0], e[1], Tup([e[2], e[3]]))))
            return app('dictval', tuple(ents), 'obj')
        if isinstance(v, Obj):
            return P(Atom('obj', (v.cls.name if v.cls else '?', self.objnames.get(v.id, v.id)), 'obj'))
        if isinstance(v, (Fn, Bound)):
            return self.to_fun(v)
        if isinstance(v, (Cls, Ext, Mod)):
            return P(Atom('cls', (v.name,), 'obj'))
        if isinstance(v, IteV):
            return ite(v.c, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, Rng):
            return app('range', (v.lo, v.hi, v.step), 'obj')
        if isinstance(v, Slice):
            return app('slc', tuple(NONE if x is None else x for x in (v.lo, v.hi, v.step)), 'obj')
        if v is NEWAXIS or v is ELLIPSIS:
            return string('axis')
        if isinstance(v, Method):
            return app('method', (self.to_term(v.obj), v.name), 'obj')
        return self.opaque('value:' + type(v).__name__)

    def seg_term(self, s):
        if s is PRE:
            return 'pre'
        if isinstance(s, Seg):
            vs = [v for v, _ in s.loops]
            fs = []
            for v, n in s.loops:
                fs += [P(v), n - 1 - P(v)]
            with facts(*fs):
                body = (tuple(n for _, n in s.loops), s.guard, self.to_term(s.value))
            if not vs and s.guard.const == 1:
                return body[2]
            return mklam(vs, body) if vs else app('guarded', (s.guard, body[2]), 'obj')
        return 'seg?'

    def to_fun(self, v, nargs=None):
        """a callable of one time argument as a function term"""
        fn = v.fn if isinstance(v, Bound) else v
        if isinstance(fn, Overloads) or isinstance(fn, Ext):
            return P(Atom('cls', (getattr(fn, 'name', 'overload'),), 'obj'))
        a = fn.node.args
        names = [x.arg for x in a.args]
        if isinstance(v, Bound):
            names = names[1:]
        npos = len(names) - len(fn.defaults)
        if npos < 1 or a.vararg or a.kwonlyargs:
            return self.opaque('function:' + fn.name)
        vs = [fresh('t', 'num') for _ in range(npos)]
        st = self.state.clone()
        ev = len(self.events)
        r = self.call_value(v, [P(x) for x in vs], {})
        self.state = st
        del self.events[ev:]
        # the captured variables must not be rebound afterwards
        if not isinstance(v, Bound) and fn.frame is not None:
            self.frames[fn.frame].setdefault('captured', []).append((fn, self.free_names(fn)))
        return fun(vs, self.to_term(r))

    def free_names(self, fn):
        if not hasattr(self, '_fncache'):
            self._fncache = {}
        r = self._fncache.get(fn.node)
        if r is None:
            bound = {x.arg for x in fn.node.args.args}
            r = set()
            body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Name):
                        if isinstance(n.ctx, ast.Load):
                            r.add(n.id)
                        else:
                            bound.add(n.id)
            r -= bound
            self._fncache[fn.node] = r
        return r

    # ------------------------------------------------------------ joins

    def join(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if c.const == 1:
            return a
        if c.const == 0:
            return b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Content) and isinstance(b, Content):
            return Content(lambda i: ite(c, a(i), b(i)))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.cell == b.cell and a.shape == b.shape and a.axes == b.axes:
                return a
            if a.cell != b.cell and len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape)) and self._st2 is None:
                pass
            return IteV(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vals) == len(b.vals):
            return Tup([self.join(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, (Lst, Dct, Obj)) and type(a) is type(b) and a.id == b.id:
            return a
        if isinstance(a, SymObj) and isinstance(b, SymObj) and a.term is b.term:
            return a
        if isinstance(a, SymObj) and isinstance(b, SymObj) and a.cls is b.cls:
            return SymObj(ite(c, a.term, b.term), a.cls)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.join_segs(c, a, b)
        if isinstance(a, (Cls, Ext, Mod)) and type(a) is type(b) and a.name == b.name:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn:
            return Bound(self.join(c, a.obj, b.obj), a.fn)
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.frame == b.frame:
            return a
        if isinstance(a, Rng) and isinstance(b, Rng):
            return Rng(ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), ite(c, a.step, b.step))
        return IteV(c, a, b)

    _st2 = None

    def join_segs(self, c, a, b):
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]:
            i += 1
        out = list(a[:i])
        for rest, g in ((a[i:], c), (b[i:], b_not(c))):
            for s in rest:
                if isinstance(s, Seg):
                    out.append(Seg(s.loops, g * s.guard, s.value))
                elif isinstance(s, tuple):
                    out.append((s[0], g * s[1], s[2], s[3]))
                else:
                    out.append(s)
        return tuple(out)

    def merge_states(self, c, s1, s2):
        out = State(dict(s1.d), dict(s1.w))
        keys = set(s1.d) | set(s2.d)
        for k in keys:
            a = s1.d.get(k, UNDEF)
            b = s2.d.get(k, UNDEF)
            if a is b:
                continue
            if a is UNDEF:
                a = self.base.get(k, UNDEF)
            if b is UNDEF:
                b = self.base.get(k, UNDEF)
            v = self.join(c, a, b)
            out.d[k] = v
            w1, w2 = s1.w.get(k), s2.w.get(k)
            if w2 is not None and (a is UNDEF or (w1 is None) or (v is b)):
                out.w[k] = w2
            elif w2 is not None and w1 != w2 and s1.d.get(k) is self.base.get(k, UNDEF):
                out.w[k] = w2
        return out

    # ------------------------------------------------------------ events

    def log(self, name, args, data=None):
        self.events.append(Event(name, tuple(args), tuple(self.loops), self.path, self.site, data))

    # ------------------------------------------------------------ names

    def lookup(self, name):
        f = self.cur_frame
        while f is not None:
            v = self.get(('v', f, name))
            if v is not UNDEF:
                return v
            f = self.frames[f]['parent']
        env = self.module_env(self.cur_module)
        if name in env:
            return env[name]
        if name in BUILTINS:
            return Ext('builtins.' + name)
        return self.opaque('name:' + name)

    def module_env(self, mod):
        env = self.modenv.get(mod)
        if env is not None:
            return env
        env = {}
        self.modenv[mod] = env
        tree = self.pkg.asts[mod]
        self._module_body(tree.body, env, mod)
        return env

    def _module_body(self, body, env, mod):
        for s in body:
            if isinstance(s, ast.Import):
                for al in s.names:
                    m = self.pkg.module_of_import(al.name, 0, mod)
                    if m:
                        env[al.asname or al.name.split('.')[0]] = Mod(m)
                    else:
                        env[al.asname or al.name.split('.')[0]] = Ext(al.name if al.asname else al.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                m = self.pkg.module_of_import(s.module or '', s.level, mod)
                for al in s.names:
                    if m:
                        menv = self.module_env(m)
                        if al.name == '*':
                            for k, v in list(menv.items()):
                                if not k.startswith('_'):
                                    env[k] = v
                        elif al.name in menv:
                            env[al.asname or al.name] = menv[al.name]
                        else:
                            env[al.asname or al.name] = Ext('missing.' + al.name)
                    elif s.level and s.module is None and al.name in self.pkg.asts:
                        env[al.asname or al.name] = Mod(al.name)
                    elif (s.module or '') == self.pkg.prefix and al.name in self.pkg.asts:
                        env[al.asname or al.name] = Mod(al.name)
                    elif al.name != '*':
                        env[al.asname or al.name] = Ext((s.module or '') + '.' + al.name)
            elif isinstance(s, ast.FunctionDef):
                env[s.name] = Fn(s, None, mod, None, self.static_defaults(s, mod))
            elif isinstance(s, ast.ClassDef):
                env[s.name] = self.make_class(s, mod, env)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                old = (self.cur_module, self.cur_frame)
                self.cur_module, self.cur_frame = mod, None
                try:
                    env[s.targets[0].id] = self.eval(s.value)
                finally:
                    self.cur_module, self.cur_frame = old
            elif isinstance(s, (ast.If, ast.Try)):
                self._module_body(s.body, env, mod)

    def static_defaults(self, node, mod):
        old = (self.cur_module, self.cur_frame)
        self.cur_module, self.cur_frame = mod, None
        try:
            return tuple(self.eval(d) for d in node.args.defaults)
        finally:
            self.cur_module, self.cur_frame = old

    def make_class(self, node, mod, env):
        c = Cls(node.name, node, mod)
        env[node.name] = c
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in env:
                c.bases.append(env[b.id])
            elif isinstance(b, ast.Attribute):
                old = (self.cur_module, self.cur_frame)
                self.cur_module, self.cur_frame = mod, None
                try:
                    c.bases.append(self.eval(b))
                finally:
                    self.cur_module, self.cur_frame = old
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = Fn(s, None, mod, c, self.static_defaults(s, mod))
                disp = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'dispatch':
                        disp = tuple(ast.unparse(x) for x in d.args)
                if disp is not None:
                    cur = c.methods.get(s.name)
                    if isinstance(cur, Overloads):
                        cur.fns = [x for x in cur.fns if x[0] != disp] + [(disp, f)]
                    else:
                        c.methods[s.name] = Overloads([(disp, f)])
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                old = (self.cur_module, self.cur_frame)
                self.cur_module, self.cur_frame = mod, None
                try:
                    c.attrs[s.targets[0].id] = self.eval(s.value)
                finally:
                    self.cur_module, self.cur_frame = old
        return c

    def find_class(self, mod, name):
        v = self.module_env(mod).get(name)
        return v if isinstance(v, Cls) else None

    # ------------------------------------------------------------ execution

    def fact_terms(self, c):
        """facts (polys >= 0) implied by the condition polynomial c"""
        out = []
        if len(c.terms) == 1 and c.terms[0][1] == 1:
            for a, e in c.terms[0][0]:
                if a.head == 'lt0':
                    p = a.args[0]
                    out.append(-p - 1 if p.isint else -p)
                elif a.head == 'eq0':
                    out.append(a.args[0])
                    out.append(-a.args[0])
        else:
            n = b_not(c)
            at = n.atom
            if at is not None and at.head == 'lt0':
                out.append(at.args[0])
        return [p for p in out if is_numeric(p) or True]

    def exec_block(self, stmts):
        out = {}
        cur = ONE
        nfacts = 0
        path0 = self.path
        try:
            for s in stmts:
                comp = self.exec_stmt(s)
                if comp is None:
                    continue
                for k, (c, st, v) in comp.items():
                    if k == 'normal':
                        continue
                    self.add_completion(out, k, cur * c, st, v)
                if 'normal' not in comp:
                    return out
                c, st, _ = comp['normal']
                self.state = st
                if c.const != 1:
                    cur = cur * c
                    self.path = self.path * c
                    fs = [f for f in self.fact_terms(c) if f.const is None]
                    FACTS.extend(fs)
                    nfacts += len(fs)
            self.add_completion(out, 'normal', cur, self.state, None)
            return out
        finally:
            self.path = path0
            if nfacts:
                del FACTS[-nfacts:]

    def add_completion(self, out, k, c, st, v):
        if k in out:
            c1, s1, v1 = out[k]
            out[k] = (c1 + c, self.merge_states(c1, s1, st), self.join(c1, v1, v))
        else:
            out[k] = (c, st, v)

    def exec_stmt(self, s):
        old = self.site
        self.site = (old[0], old[1], getattr(s, 'lineno', old[2]))
        try:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.taint('statement ' + type(s).__name__)
                return None
            return m(s)
        finally:
            self.site = old

    def taint(self, why):
        self.tainted.append((why, self.site))

    def x_Pass(self, s):
        return None

    def x_Global(self, s):
        return None
    x_Nonlocal = x_Global
    x_Import = lambda self, s: self._local_import(s)
    x_ImportFrom = lambda self, s: self._local_import(s)

    def _local_import(self, s):
        env = {}
        self._module_body([s], env, self.cur_module)
        for k, v in env.items():
            self.put(('v', self.cur_frame, k), v)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        return {'return': (ONE, self.state, v)}

    def x_Break(self, s):
        return {'break': (ONE, self.state, None)}

    def x_Continue(self, s):
        return {'continue': (ONE, self.state, None)}

    def x_Raise(self, s):
        self.reject(ONE, 'raise')
        return {}

    def reject(self, c, what):
        self.events.append(Event('reject', (string(what),), tuple(self.loops), self.path * c, self.site, self.state.clone()))

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if c.const == 1:
            return None
        self.reject(b_not(c), 'assert')
        return None

    def x_Delete(self, s):
        self.taint('del')

    def x_FunctionDef(self, s):
        d = tuple(self.eval(x) for x in s.args.defaults)
        self.assign_name(s.name, Fn(s, self.cur_frame, self.cur_module, None, d))

    def x_ClassDef(self, s):
        self.taint('local class')

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def x_Try(self, s):
        comp = self.exec_block(s.body)
        # exceptional continuation: abstracted away (rejection paths are logged separately)
        if s.orelse and 'normal' in comp:
            c, st, _ = comp.pop('normal')
            self.state = st
            comp2 = self.exec_block(s.orelse)
            for k, (c2, st2, v2) in comp2.items():
                self.add_completion(comp, k, c * c2, st2, v2)
        if s.finalbody and 'normal' in comp:
            c, st, _ = comp.pop('normal')
            self.state = st
            comp2 = self.exec_block(s.finalbody)
            for k, (c2, st2, v2) in comp2.items():
                self.add_completion(comp, k, c * c2, st2, v2)
        if not comp and s.handlers:
            return self.exec_block(s.handlers[0].body)
        return comp

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        if c.const is not None:
            if c.const == 1:
                return self.exec_block(s.body)
            return self.exec_block(s.orelse) if s.orelse else None
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, fa, fb):
        s0 = self.state
        path0 = self.path
        comps = []
        for cond, f in ((c, fa), (b_not(c), fb)):
            self.state = s0.clone()
            self.path = path0 * cond
            fs = [x for x in self.fact_terms(cond) if x.const is None]
            FACTS.extend(fs)
            try:
                comps.append(f() if self.path.terms else {})
            finally:
                if fs:
                    del FACTS[-len(fs):]
                self.path = path0
        A, B = comps
        if not A and not B:
            return {}
        if not A:
            return B
        if not B:
            return A
        out = {}
        for k in list(A) + [k for k in B if k not in A]:
            if k in A and k in B:
                ca, sa, va = A[k]
                cb, sb, vb = B[k]
                out[k] = (ite(c, ca, cb), self.merge_states(c, sa, sb), self.join(c, va, vb))
            elif k in A:
                ca, sa, va = A[k]
                out[k] = (c * ca, sa, va)
            else:
                cb, sb, vb = B[k]
                out[k] = (b_not(c) * cb, sb, vb)
        return out

    # assignments

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.note_float(t, s.value)
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            rhs = self.eval(s.value)
            if isinstance(cur, Arr):
                self.inplace(cur, s.op, rhs)
                return
            if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs)
                return
            self.assign_name(t.id, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr)
            rhs = self.eval(s.value)
            if isinstance(cur, Arr):
                self.inplace(cur, s.op, rhs)
                return
            if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs)
                return
            self.setattr(obj, t.attr, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval_key(t.slice)
            cur = self.getitem(obj, key)
            rhs = self.eval(s.value)
            if isinstance(cur, Arr) and isinstance(obj, Arr):
                self.inplace(cur, s.op, rhs)
                return
            self.setitem(obj, key, self.binop(s.op, cur, rhs))
        else:
            self.taint('augassign')

    def inplace(self, arr, op, rhs):
        v = self.binop(op, arr, rhs)
        self.store_value(arr, v)

    def store_value(self, view, v):
        """view[...] = v with broadcasting"""
        f = npmodel.broadcast_reader(self, v, view.shape, view.dtype)
        if f is None:
            self.taint('store of ' + type(v).__name__)
            o = self.opaque('store')
            f = lambda idx: o
        self.store_view(view, f)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_key(t.slice), v)
        else:
            self.taint('assign target')

    def assign_name(self, name, v):
        fr = self.frames.get(self.cur_frame)
        if fr is not None and fr.get('captured') and name not in ():
            cur = self.get(('v', self.cur_frame, name))
            if cur is not UNDEF and cur is not v:
                for fn, names in fr['captured']:
                    if name in names:
                        self.hazards.append((name, fn, self.site))
        g = fr.get('globals') if fr else None
        self.put(('v', self.cur_frame, name), v)

    def unpack(self, v, n):
        if isinstance(v, Tup):
            if len(v.vals) == n:
                return v.vals
        if isinstance(v, Lst):
            segs = self.get(('l', v.id))
            if len(segs) == n and all(isinstance(s, Seg) and s.plain for s in segs):
                return [s.value for s in segs]
            return [self.getitem(v, num(i)) for i in range(n)]
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.join(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Arr):
            return [self.index_array(v, num(i)) for i in range(n)]
        if isinstance(v, Seq):
            if len(v.segs) == n and all(s.plain for s in v.segs):
                return [s.value for s in v.segs]
        if isinstance(v, (Poly, SymObj)):
            return [self.getitem(v, num(i)) for i in range(n)]
        self.taint('unpack')
        return [self.opaque('unpack') for _ in range(n)]

    # ------------------------------------------------------------ loops

    def x_While(self, s):
        # counting loops:  while i < n: ...; i += 1
        t = s.test
        if (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and
                isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and s.body and not s.orelse):
            i = t.left.id
            last = s.body[-1]
            inc = (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and
                   last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1)
            others = [n for b in s.body[:-1] for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store)]
            conts = [n for b in s.body[:-1] for n in ast.walk(b) if isinstance(n, (ast.Continue, ast.Break))]
            if inc and not others and not conts:
                lo = self.lookup(i)
                hi = self.eval(t.comparators[0])
                if isinstance(lo, Poly) and isinstance(hi, Poly):
                    if isinstance(t.ops[0], ast.LtE):
                        hi = hi + 1
                    comp = self.for_seq(ast.Name(i, ast.Store()), self.to_seq(Rng(lo, hi)), s.body[:-1])
                    if comp is None or 'normal' in comp:
                        if comp is not None:
                            self.state = comp['normal'][1]
                        self.put(('v', self.cur_frame, i), hi)
                        if comp is not None:
                            c0 = comp['normal']
                            comp['normal'] = (c0[0], self.state, None)
                    return comp
        self.taint('while loop')
        # forget everything the body may assign
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.put(('v', self.cur_frame, n.id), self.opaque('while'))
        return None

    def x_For(self, s):
        it = self.eval(s.iter)
        seq = self.to_seq(it)
        if seq is None:
            self.taint('loop over ' + type(it).__name__)
            seq = Seq([Seg(((fresh('k'), self.opaque('len', (), 'int')),), ONE, self.opaque('elem'))])
        comp = self.for_seq(s.target, seq, s.body)
        if s.orelse:
            # runs when the loop was not broken out of; only supported without break
            if any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
                self.taint('for-else')
            else:
                if comp is None:
                    return self.exec_block(s.orelse)
        return comp

    def for_seq(self, target, seq, body):
        def run(value):
            self.assign(target, value)
            return self.exec_block(body)
        return self.iterate(seq.segs, run)

    def iterate(self, segs, run):
        """run(value) -> completions, for each element; returns completions or None"""
        out = {}
        cur = ONE
        nfacts = 0
        path0 = self.path
        try:
            for s in segs:
                if s.plain:
                    comp = run(s.value)
                elif not s.loops:
                    comp = self.branch(s.guard, lambda: run(s.value), lambda: {'normal': (ONE, self.state, None)})
                else:
                    comp = self.sym_loops(list(s.loops), s.guard, lambda: run(s.value))
                if comp is None:
                    continue
                # continue == normal for the next iteration
                nxt = {}
                for k, (c, st, v) in comp.items():
                    if k in ('continue', 'normal'):
                        self.add_completion(nxt, 'normal', c, st, None)
                    else:
                        self.add_completion(out, 'broken' if k == 'break' else k, cur * c, st, v)
                if 'normal' not in nxt:
                    cur = None
                    break
                c, st, _ = nxt['normal']
                self.state = st
                if c.const != 1:
                    cur = cur * c
                    self.path = self.path * c
                    fs = [f for f in self.fact_terms(c) if f.const is None]
                    FACTS.extend(fs)
                    nfacts += len(fs)
            if cur is not None:
                self.add_completion(out, 'normal', cur, self.state, None)
            if 'broken' in out:
                c, st, v = out.pop('broken')
                if 'normal' in out:
                    c2, st2, _ = out['normal']
                    out['normal'] = (c + c2, self.merge_states(c, st, st2), None)
                else:
                    out['normal'] = (c, st, None)
            if set(out) == {'normal'}:
                self.state = out['normal'][1]
                return {'normal': (out['normal'][0], self.state, None)}
            return out
        finally:
            self.path = path0
            if nfacts:
                del FACTS[-nfacts:]

    def sym_loops(self, loops, guard, run):
        if not loops:
            if guard.const == 1:
                return run()
            return self.branch(guard, run, lambda: {'normal': (ONE, self.state, None)})
        var, n = loops[0]
        return self.sym_loop(var, n, lambda: self.sym_loops(loops[1:], guard, run))

    def sym_loop(self, var, n, run):
        if var in self.active_vars:
            self.taint('nested iteration over the same sequence')
            return None
        S0 = self.state
        pv = P(var)
        self.active_vars.append(var)
        self.loops.append((var, n))
        fs = [pv, n - 1 - pv]
        FACTS.extend(fs)
        ev0, tn0, hz0, op0 = len(self.events), len(self.tainted), len(self.hazards), len(self.opaques)
        nid0 = self.nid
        cap0 = {f: list(d.get('captured', ())) for f, d in self.frames.items()}
        try:
            # ---- discovery run
            self.state = S0.clone()
            comp = run()
            states = [st for (_c, st, _v) in comp.values()] if comp else [self.state]
            mod = {}
            for st in states:
                for k, v in st.d.items():
                    o = S0.d.get(k, UNDEF)
                    if o is UNDEF:
                        o = self.base.get(k, UNDEF)
                    if v is not o:
                        pre_existing = o is not UNDEF
                        local = k[0] == 'v' and k[1] == self.cur_frame
                        if pre_existing or local or k[0] in ('sa',):
                            mod[k] = o
            # captured variables rebound by the next iteration
            del self.events[ev0:]
            del self.tainted[tn0:]
            del self.opaques[op0:]
            # ---- summarising run
            S1 = S0.clone()
            pres = {}
            for k, o in mod.items():
                ph = self.placeholder(k, o, [st.d.get(k, UNDEF) for st in states])
                if ph is not None:
                    S1.d[k] = ph[0]
                    pres[k] = ph
            self.state = S1
            comp = run()
            if comp is None:
                comp = {'normal': (ONE, self.state, None)}
            nxt = {}
            for k, (c, st, v) in comp.items():
                self.add_completion(nxt, 'normal' if k == 'continue' else k, c, st, v)
            comp = nxt
            for f, d in self.frames.items():
                for fn, names in d.get('captured', ()):
                    if any(fn is x for x, _ in cap0.get(f, ())):
                        continue
                    for k in mod:
                        if k[0] == 'v' and k[1] == f and k[2] in names and fn.frame == f:
                            self.hazards.append((k[2], fn, self.site))
        finally:
            del FACTS[-2:]
            self.loops.pop()
            self.active_vars.remove(var)
        # early exits: first-match search
        exits = {k: comp[k] for k in comp if k in ('return', 'break')}
        out = {}
        if exits:
            pcond = ZERO
            for k in exits:
                pcond = pcond + exits[k][0]
            if any(self.mentions_pre(c, pres) for (c, _s, _v) in comp.values()):
                self.taint('loop-carried exit')
            norm = comp.get('normal')
            if norm is not None and mod:
                carried = [k for k in pres if norm[1].d.get(k) is not pres[k][0]]
                carried = [k for k in carried if not (k[0] == 'v' and self.get_from(S0, k) is UNDEF)]
                if carried:
                    # loop state changes and early exit together: keep state symbolic
                    return self.exit_with_state(S0, var, n, comp, pres, mod, pcond)
            anyc = mkany_v(var, n, pcond)
            for k, (c, st, v) in exits.items():
                sel = c if len(exits) == 1 else c
                stf = State(dict(S0.d), dict(S0.w))
                for key, val in st.d.items():
                    o = self.get_from(S0, key)
                    if key in pres and val is pres[key][0]:
                        continue
                    if val is o:
                        continue
                    stf.d[key] = self.first_value(var, n, pcond, val)
                    stf.w[key] = st.w.get(key, self.site)
                vv = None if v is None else self.first_value(var, n, pcond, v)
                if len(exits) == 1:
                    cc = anyc
                else:
                    cc = anyc * mkfirst(var, n, pcond, c)
                out[k] = (cc, stf, vv)
            if norm is not None or pcond.const != 1:
                stn = State(dict(S0.d), dict(S0.w))
                out['normal'] = (b_not(anyc), stn, None)
            return out
        if 'normal' not in comp:
            # every iteration is rejected
            self.state = S0
            return {'normal': (ONE, S0, None)}
        st = comp['normal'][1]
        self.state = self.summarise(S0, st, var, n, pres, mod)
        return {'normal': (ONE, self.state, None)}

    def get_from(self, st, k):
        v = st.d.get(k, UNDEF)
        if v is UNDEF:
            v = self.base.get(k, UNDEF)
        return v

    def exit_with_state(self, S0, var, n, comp, pres, mod, pcond):
        self.taint('loop with early exit and carried state')
        st = State(dict(S0.d), dict(S0.w))
        out = {}
        anyc = mkany_v(var, n, pcond)
        norm = comp['normal'][1]
        # accumulations before the exit:  total over the iterations preceding the first match
        ok = True
        pos = self.first_value(var, n, pcond, P(var))
        cnt = ite(anyc, pos, n)
        for k in pres:
            v = norm.d.get(k)
            if v is pres[k][0]:
                continue
            o = self.get_from(S0, k)
            if isinstance(v, Poly) and isinstance(o, Poly) and pres[k][1] is not None:
                d = v - P(pres[k][1])
                # under the no-exit condition
                d = self.assume_not(d, pcond)
                if not self.mentions_pre(d, pres):
                    w = fresh('m')
                    st.d[k] = o + mksum(w, ZERO, cnt, subst(d, {var: P(w)}))
                    st.w[k] = norm.w.get(k, self.site)
                    continue
            if o is UNDEF and isinstance(v, (Poly,)) and k[0] == 'v':
                continue
            ok = False
        if ok:
            self.tainted.pop()
        for k, (c, s, v) in comp.items():
            if k == 'normal':
                continue
            s2 = State(dict(st.d), dict(st.w))
            for key, val in s.d.items():
                o = self.get_from(S0, key)
                if key in pres:
                    if val is pres[key][0]:
                        continue
                    if isinstance(val, Poly) and self.mentions_pre(val, pres):
                        continue
                if val is o or key in st.d and st.d[key] is not o:
                    continue
                s2.d[key] = self.first_value(var, n, pcond, val)
            out[k] = (anyc, s2, None if v is None else self.first_value(var, n, pcond, v))
        out['normal'] = (b_not(anyc), st, None)
        return out

    def assume_not(self, d, c):
        a = c.atom
        if a is not None and a.head in IDEM:
            return cofactor(d, a, 0)
        na = b_not(c).atom
        if na is not None and na.head in IDEM:
            return cofactor(d, na, 1)
        return d

    def mentions_pre(self, v, pres):
        if not isinstance(v, Poly):
            return False
        names = set()
        for k in pres:
            if pres[k][1] is not None:
                names.add(pres[k][1])
        return bool(v.fv & names)

    def first_value(self, var, n, cond, v):
        if isinstance(v, Poly):
            if var not in v.fv:
                return v
            return mkfirst(var, n, cond, v)
        if isinstance(v, Tup):
            return Tup([self.first_value(var, n, cond, x) for x in v.vals])
        if isinstance(v, SymObj):
            return SymObj(self.first_value(var, n, cond, v.term), v.cls)
        if isinstance(v, Content):
            return Content(lambda i: self.first_value(var, n, cond, v(i)))
        if isinstance(v, tuple):
            return tuple(self.first_seg(var, n, cond, s) for s in v)
        if isinstance(v, Lst):
            segs = self.get(('l', v.id))
            return self.new_list([self.first_seg(var, n, cond, s) for s in segs])
        if isinstance(v, Dct):
            ents = self.get(('d', v.id))
            return self.new_dict([e if e is PRE else (e[0], self.first_value(var, n, cond, e[1]), self.first_value(var, n, cond, e[2]), self.first_value(var, n, cond, e[3])) for e in ents])
        if isinstance(v, (Obj, Arr)):
            return v
        return v

    def first_seg(self, var, n, cond, s):
        if not isinstance(s, Seg):
            return s
        return Seg([(v, self.first_value(var, n, cond, m)) for v, m in s.loops], self.first_value(var, n, cond, s.guard), self.first_value(var, n, cond, s.value))

    def placeholder(self, k, o, dv=()):
        """(value to put in the store, placeholder var atom or name)"""
        if k[0] == 'c':
            if o is UNDEF:
                return None
            tag = fresh('cell', 'obj')
            probe_kind = self.cell_kind.get(k[1], 'num') if hasattr(self, 'cell_kind') else 'num'
            return (Content(lambda idx, t=tag: app('pre', (P(t),) + tuple(idx), probe_kind)), tag)
        if k[0] == 'l':
            return ((PRE,), None)
        if k[0] == 'd':
            return ((PRE,), None)
        if o is UNDEF:
            return None
        if isinstance(o, Poly):
            t = fresh('pre', 'int' if o.isint else _kind(o))
            return (P(t), t)
        if isinstance(o, Arr):
            # arrays that are re-created by appending in every iteration
            app_ = getattr(self, 'appended', {})
            if any(isinstance(x, Arr) and x.cell in app_ for x in dv) or any(isinstance(x, Poly) and x.atom is not None and x.atom.head == 'accum' for x in dv):
                t = fresh('pre', 'mat')
                return (P(t), t)
            return None
        return None

    def summarise(self, S0, S1, var, n, pres, mod):
        out = State(dict(S0.d), dict(S0.w))
        pv = P(var)
        tags = {pres[k][1]: k for k in pres if pres[k][1] is not None}
        closed = {}        # placeholder atom -> value at the start of iteration `var`
        final = {}
        todo = []
        for k in mod:
            v = S1.d.get(k, UNDEF)
            if v is UNDEF:
                continue
            if k in pres and v is pres[k][0]:
                if pres[k][1] is not None and k[0] != 'c':
                    closed[pres[k][1]] = S0.d.get(k, self.base.get(k))
                final[k] = self.get_from(S0, k)
                continue
            todo.append(k)
        # 1. scalars
        progress = True
        while progress:
            progress = False
            for k in list(todo):
                v = S1.d[k]
                o = self.get_from(S0, k)
                if k[0] in ('c', 'l', 'd'):
                    continue
                if not isinstance(v, Poly):
                    if k in pres and isinstance(v, (SymObj, Tup, Lst, Dct, Obj, Arr)) or k not in pres:
                        # overwritten in every iteration (value of the last one)
                        final[k] = self.last_value(var, n, v, closed)
                        if k in pres and pres[k][1] is not None:
                            closed[pres[k][1]] = self.opaque('prev')
                        todo.remove(k)
                        progress = True
                    continue
                vv = subst(v, {a: closed[a] for a in closed if isinstance(closed[a], Poly)}) if closed else v
                ph = pres[k][1] if k in pres else None
                others = [t for t in tags if t in vv.fv and t is not ph and tags[t][0] != 'c']
                if others:
                    continue
                if ph is None or ph not in vv.fv:
                    if k in pres:
                        # value of the previous iteration
                        prev = subst(vv, {var: pv - 1})
                        closed[ph] = ite(eq0(pv), o, prev) if isinstance(o, Poly) else prev
                    final[k] = ite(lt0(-n), subst(vv, {var: n - 1}), o) if isinstance(o, Poly) and not prove_ge0(n - 1) else subst(vv, {var: n - 1})
                    todo.remove(k)
                    progress = True
                    continue
                d = vv - P(ph)
                if ph not in d.fv:
                    w = fresh('m')
                    dd = subst(d, {var: P(w)})
                    closed[ph] = o + mksum(w, ZERO, pv, dd)
                    final[k] = o + mksum(w, ZERO, n, dd)
                    todo.remove(k)
                    progress = True
                    continue
                mm = self.match_extremum(vv, ph)
                if mm is not None:
                    head, x = mm
                    w = fresh('m')
                    final[k] = mkextr(head, o, n, w, subst(x, {var: P(w)}))
                    closed[ph] = mkextr(head, o, pv, w, subst(x, {var: P(w)}))
                    todo.remove(k)
                    progress = True
                    continue
                fl = self.match_flag(vv, ph, var)
                if fl is not None and isinstance(o, Poly):
                    c, x = fl
                    w = fresh('m')
                    cw = subst(c, {var: P(w)})
                    final[k] = ite(mkany_v(w, n, cw), x, o)
                    closed[ph] = ite(mkany_v(w, pv, cw), x, o)
                    todo.remove(k)
                    progress = True
                    continue
                acc = self.match_accum(vv, ph)
                if acc is not None:
                    op, segs = acc
                    if isinstance(o, Arr):
                        o = self.to_term(o)
                    final[k] = mkaccum(op, o, [(var, n)], segs)
                    closed[ph] = mkaccum(op, o, [(var, pv)], segs)
                    todo.remove(k)
                    progress = True
                    continue
        # 2. lists and dictionaries built by appending
        for k in list(todo):
            if k[0] not in ('l', 'd'):
                continue
            v = S1.d[k]
            o = self.get_from(S0, k)
            if v and v[0] is PRE and PRE not in v[1:]:
                new = []
                bad = False
                for s in v[1:]:
                    if isinstance(s, Seg):
                        new.append(Seg(((var, n),) + s.loops, self.close(s.guard, closed), self.close_value(s.value, closed)))
                    else:
                        new.append((((var, n),) + tuple(s[0]), self.close(s[1], closed), self.close_value(s[2], closed), self.close_value(s[3], closed)))
                final[k] = tuple(o) + tuple(new)
            else:
                self.taint('loop-carried container')
                final[k] = tuple(o) + (Seg(((var, n),), ONE, self.opaque('carried')),) if k[0] == 'l' else tuple(o)
            todo.remove(k)
        # 3. array cells
        for k in list(todo):
            if k[0] != 'c':
                continue
            v = S1.d[k]
            o = self.get_from(S0, k)
            final[k] = self.cell_summary(k, v, o, var, n, pres, tags, closed, S0, S1)
            todo.remove(k)
        # 4. anything left: a genuine recurrence
        for k in todo:
            v = S1.d[k]
            o = self.get_from(S0, k)
            t = self.opaque('recurrence', (v,) if isinstance(v, Poly) else ())
            self.taint('recurrence on %s' % (k,))
            final[k] = t
        for k, v in final.items():
            if v is UNDEF:
                continue
            out.d[k] = v
            out.w[k] = S1.w.get(k, self.site)
        # objects created inside the loop
        for k, v in S1.d.items():
            if k not in mod and k not in out.d:
                if isinstance(v, Poly):
                    v = self.close(v, closed)
                out.d[k] = v
                out.w[k] = S1.w.get(k, self.site)
        return out

    def close(self, p, closed):
        if not isinstance(p, Poly):
            return p
        m = {a: v for a, v in closed.items() if isinstance(v, Poly) and a in p.fv}
        return subst(p, m) if m else p

    def close_value(self, v, closed):
        if isinstance(v, Poly):
            return self.close(v, closed)
        if isinstance(v, SymObj):
            return SymObj(self.close(v.term, closed), v.cls)
        if isinstance(v, Tup):
            return Tup([self.close_value(x, closed) for x in v.vals])
        return v

    def last_value(self, var, n, v, closed):
        if isinstance(v, Poly):
            return subst(self.close(v, closed), {var: n - 1})
        if isinstance(v, SymObj):
            return SymObj(self.last_value(var, n, v.term, closed), v.cls)
        if isinstance(v, Tup):
            return Tup([self.last_value(var, n, x, closed) for x in v.vals])
        if isinstance(v, Arr):
            c = self.content_of_state(v)
            m = {var: n - 1}
            axes = [(a[0], subst(a[1], m)) if a[0] == 'fix' else (a[0], a[1], subst(a[2], m), a[3]) for a in v.axes]
            if any(var in s.fv for s in v.shape):
                return self.opaque('last')
            key = ('c', v.cell)
            if key in self.base or True:
                return Arr(v.cell, axes, v.shape, v.dtype)
        return v

    def content_of_state(self, a):
        return None

    def match_extremum(self, v, ph):
        """v = pre + [x - pre < 0] (x - pre)  ->  ('min', x)"""
        for a in v.atoms():
            if a.head == 'lt0' and ph in a.fv:
                x1 = cofactor(v, a, 1)
                x0 = cofactor(v, a, 0)
                p = a.args[0]
                for new, cond in ((x1, True), (x0, False)):
                    other = x0 if cond else x1
                    if other is P(ph) and ph not in new.fv:
                        d = new - P(ph)          # chosen when cond
                        # condition p<0 with p = s*(new-pre)
                        if is_zero(p - d) or _samedir(p, d):
                            return ('min' if cond else 'max', new)
                        if is_zero(p + d) or _samedir(p, -d):
                            return ('max' if cond else 'min', new)
            if a.head in ('min2', 'max2') and v.atom is a:
                xs = [x for x in a.args if x is not P(ph)]
                if len(xs) == 1 and ph not in xs[0].fv:
                    return (a.head[:3], xs[0])
        return None

    def match_flag(self, v, ph, var):
        """v = x if c else pre, the same x in every iteration -> (c, x)"""
        a = subst(v, {ph: ZERO})
        b = subst(v, {ph: ONE}) - a
        if ph in a.fv or ph in b.fv or not is_zero(v - a - b * P(ph)):
            return None
        c = 1 - b
        if c.const is not None or not is_zero(c * c - c):
            return None
        for x in (ONE, ZERO) + tuple(P(y) for y in a.fv if var not in P(y).fv):
            if is_zero(a - c * x):
                return c, x
        return None

    def match_accum(self, v, ph):
        a = v.atom
        if a is not None and a.head == 'accum':
            op, init, segs = a.args
            if init is P(ph) and not any(ph in s.fv for s in segs):
                return op, segs
        return None

    def cell_summary(self, k, v, o, var, n, pres, tags, closed, S0, S1):
        tag = pres[k][1]
        pv = P(var)
        celltags = {t: tags[t] for t in tags if tags[t][0] == 'c'}
        S0d = S0
        summ = {'mode': None}

        def body_at(idx):
            with facts(pv, n - 1 - pv):
                r = v(idx)
                return self.close(r, closed)

        def pre_apps(p):
            """'pre' atoms anywhere in p"""
            found = {}
            seen = set()

            def rec(x):
                if isinstance(x, tuple):
                    for y in x:
                        rec(y)
                    return
                if isinstance(x, Lam):
                    if x.key not in seen:
                        seen.add(x.key)
                        rec(x.body)
                    return
                if isinstance(x, Poly):
                    if x.key in seen:
                        return
                    seen.add(x.key)
                    for a in x.atoms():
                        rec(a)
                    return
                if isinstance(x, Atom):
                    if x.head == 'pre' and x.args[0].atom in celltags:
                        found[x.key] = x
                    for y in x.args:
                        rec(y)
            rec(p)
            return list(found.values())

        def orig(a):
            kk = celltags[a.args[0].atom]
            c = self.get_from(S0d, kk)
            return c(a.args[1:])

        def owner(kk):
            """the axis and offset that tie an element of cell kk to its iteration"""
            info = self._owner_cache.get((kk, tag))
            return info

        def f(idx):
            return g(idx, body_at(idx), o(idx))

        def align(R, idx):
            """pre(tag, e) under [e == idx] is pre(tag, idx)"""
            bad = [a for a in R.atoms() if a.head == 'pre' and a.args[0].atom is tag and not all(x is y for x, y in zip(a.args[1:], idx))]
            if not bad:
                return R
            out = ZERO
            for m, c in R.terms:
                eqs = {a.key for a, e in m if a.head == 'eq0'}
                mono = num(c)
                for a, e in m:
                    if a in bad:
                        ok = True
                        for x, y in zip(a.args[1:], idx):
                            if x is not y:
                                z = eq0(x - y).atom
                                if z is None or z.key not in eqs:
                                    ok = False
                        if ok:
                            mono = mono * ipow(app('pre', (P(tag),) + tuple(idx), a.kind), e)
                            continue
                    mono = mono * mkpoly({((a, e),): Fraction(1)})
                out = out + mono
            return out

        def g(idx, R, base):
            R = align(R, idx)
            for a in R.atoms():
                if a.head in IDEM and var not in a.fv and not pre_apps(P(a)):
                    return ite(P(a), g(idx, cofactor(R, a, 1), base), g(idx, cofactor(R, a, 0), base))
            self_pre = app('pre', (P(tag),) + tuple(idx), 'num')
            own = None
            pa = [a for a in R.atoms() if a.head == 'pre' and a.args[0].atom is tag and all(x is y for x, y in zip(a.args[1:], idx))]
            selfatom = pa[0] if pa else None
            # order-preserving accumulation of matrices/lists
            if selfatom is None:
                acc = None
                for a in R.atoms():
                    if a.head == 'accum':
                        acc = a
                if acc is not None and R.atom is acc:
                    init = acc.args[1].atom
                    if init is not None and init.head == 'pre' and init.args[0].atom is tag:
                        if all(x is y for x, y in zip(init.args[1:], idx)):
                            return mkaccum(acc.args[0], base, [(var, n)], acc.args[2])
                if var in R.fv or pre_apps(R):
                    # maybe every iteration overwrites it: last one wins
                    if not pre_apps(R):
                        return subst(R, {var: n - 1})
                    return self.opaque('recurrence', (R,), 'num')
                if not pre_apps(R):
                    return R
                return self.opaque('recurrence', (R,), 'num')
            D = R - P(selfatom)
            if not D.terms:
                return base
            res = base
            accs = [a for a in D.atoms() if a.head == 'accum']
            total = ZERO
            for m, c in D.terms:
                mono = mkpoly({m: c})
                e = None
                for a, ee in m:
                    if a.head == 'eq0':
                        sol = solve_for(a.args[0], var)
                        if sol is not None:
                            e = (a, sol)
                            break
                if e is not None:
                    a, sol = e
                    # the iteration is determined by the index
                    rest = mkpoly({tuple(x for x in m if x[0] is not a): c})
                    for pa_ in pre_apps(rest):
                        kk = celltags[pa_.args[0].atom]
                        if kk == k and all(x is y for x, y in zip(pa_.args[1:], idx)):
                            continue
                        if not self.own_iteration(kk, pa_, var, S1, celltags, pres):
                            return self.opaque('recurrence', (R,), 'num')
                    rest = replace_pre(rest, celltags, orig)
                    val = subst(rest, {var: sol})
                    inr = b_not(lt0(sol)) * lt0(sol - n)
                    total = total + val * inr
                else:
                    pr = [x for x in pre_apps(mono) if not (celltags[x.args[0].atom] == k and all(p is q for p, q in zip(x.args[1:], idx)))]
                    if pr:
                        return self.opaque('recurrence', (R,), 'num')
                    if any(x.key == selfatom.key for x in pre_apps(mono)):
                        # overwrite of a region that is not tied to the iteration
                        return self.region_write(R, selfatom, base, var, n)
                    w = fresh('m')
                    total = total + mksum(w, ZERO, n, subst(mono, {var: P(w)}))
            return base + total
        return Content(f)

    _owner_cache = {}

    def own_iteration(self, kk, pa, var, S1, celltags, pres):
        """Is the element read through `pa` only ever written by the current iteration?
        True when the written region of cell kk is tied to the loop variable along one axis and
        the read uses that very index."""
        v = S1.d.get(kk)
        if v is None or (kk in pres and v is pres[kk][0]):
            return True
        idx = tuple(P(fresh('q')) for _ in pa.args[1:])
        R = v(idx)
        tag = pa.args[0].atom
        axis = None
        for m, c in R.terms:
            if len(m) == 1 and m[0][0].head == 'pre' and m[0][0].args[0].atom is tag and all(x is y for x, y in zip(m[0][0].args[1:], idx)):
                continue
            found = None
            for a, e in m:
                if a.head == 'eq0':
                    for d, q in enumerate(idx):
                        if q.atom in a.args[0].fv and var in a.args[0].fv:
                            s = solve_for(a.args[0], q.atom)
                            if s is not None:
                                found = (d, s)
            if found is None:
                return False
            if axis is None:
                axis = found
            elif axis[0] != found[0] or axis[1] is not found[1]:
                return False
        if axis is None:
            return True
        return is_zero(pa.args[1 + axis[0]] - axis[1])

    def region_write(self, R, selfatom, base, var, n):
        """R = W*(V - pre) + pre with a region W that depends on the iteration: last write wins"""
        W, V = None, None
        # coefficient of pre is 1 - W
        c1 = ZERO
        rest = ZERO
        for m, c in R.terms:
            mm = tuple(x for x in m if x[0] is not selfatom)
            if len(mm) != len(m):
                c1 = c1 + mkpoly({mm: c})
            else:
                rest = rest + mkpoly({m: c})
        W = ONE - c1
        l = fresh('m')
        mp = {var: P(l)}
        return raw_app('lastw', (n, mklam([l], (subst(W, mp), subst(rest, mp))), base), 'num')

    # ------------------------------------------------------------ sequences

    def to_seq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Rng):
            lo, hi, st = v.lo, v.hi, v.step
            n = hi - lo
            if st.const not in (1,):
                if st.const == -1:
                    n = lo - hi
                    c = n.const
                    if c is not None and c <= 8:
                        return Seq([Seg((), ONE, lo - i) for i in range(max(0, int(c)))])
                    k = fresh('k')
                    return Seq([Seg(((k, n),), ONE, lo - P(k))])
                c = n.const
                if c is not None and st.const is not None:
                    vals = list(range(int(lo.const or 0), int(hi.const), int(st.const))) if lo.const is not None and hi.const is not None else None
                    if vals is not None and len(vals) <= 8:
                        return Seq([Seg((), ONE, num(i)) for i in vals])
                return None
            c = n.const
            if c is not None and c <= 8:
                return Seq([Seg((), ONE, lo + i) for i in range(max(0, int(c)))])
            k = fresh('k')
            return Seq([Seg(((k, n),), ONE, lo + P(k))])
        if isinstance(v, Tup):
            return Seq([Seg((), ONE, x) for x in v.vals])
        if isinstance(v, Lst):
            segs = self.get(('l', v.id))
            if any(s is PRE for s in segs):
                return None
            return Seq(segs)
        if isinstance(v, Dct):
            return self.to_seq(self.dict_view(v, 'keys'))
        if isinstance(v, Obj) and v.cls is not None and v.cls.find('__iter__') is not None:
            return self.to_seq(self.call_bound(Bound(v, v.cls.find('__iter__')), [], {}))
        if isinstance(v, Arr):
            n = v.shape[0]
            c = n.const
            if c is not None and c <= 8:
                return Seq([Seg((), ONE, self.index_array(v, num(i))) for i in range(int(c))])
            k = fresh('k')
            with facts(P(k), n - 1 - P(k)):
                return Seq([Seg(((k, n),), ONE, self.index_array(v, P(k)))])
        if isinstance(v, IteV):
            a, b = self.to_seq(v.a), self.to_seq(v.b)
            if a is None or b is None:
                return None
            return Seq([Seg(s.loops, v.c * s.guard, s.value) for s in a.segs] + [Seg(s.loops, b_not(v.c) * s.guard, s.value) for s in b.segs])
        if isinstance(v, (Poly, SymObj)):
            t = self.to_term(v)
            sh = shannon_atoms((t,))
            if sh and not is_numeric(t):
                a = sh[0]
                return self.to_seq(IteV(P(a), cofactor(t, a, 1), cofactor(t, a, 0)))
            a = t.atom
            if a is not None and a.head == 'tuple':
                return Seq([Seg((), ONE, x) for x in a.args])
            if a is not None and a.head == 'str':
                return Seq([Seg((), ONE, string(ch)) for ch in a.args[0]])
            n = self.length(v)
            if n.const is not None and n.const <= 8:
                return Seq([Seg((), ONE, self.getitem(v, num(i))) for i in range(int(n.const))])
            k = fresh('k')
            return Seq([Seg(((k, n),), ONE, self.elem(v, P(k)))])
        return None

    def elem(self, v, k):
        t = self.to_term(v)
        a = t.atom
        if a is not None and a.head == 'values':
            d = a.args[0]
            return self.typed(app('item', (d, app('keyat', (d, k), 'obj')), 'obj'))
        if a is not None and a.head == 'keys':
            return self.typed(app('keyat', (a.args[0], k), 'obj'))
        if a is not None and a.head == 'items':
            d = a.args[0]
            kk = self.typed(app('keyat', (d, k), 'obj'))
            return Tup([kk, self.typed(app('item', (d, self.to_term(kk)), 'obj'))])
        if self.is_dict_term(t):
            return self.typed(app('keyat', (t, k), 'obj'))
        return self.getitem(v, k)

    def is_dict_term(self, t):
        f = self.schema.get('is_dict')
        return bool(f and f(t))

    def typed(self, t):
        """attach class / array information declared by the scenario"""
        f = self.schema.get('type')
        if f is not None:
            r = f(self, t)
            if r is not None:
                return r
        return t

    def length(self, v):
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, Tup):
            return num(len(v.vals))
        if isinstance(v, (Lst, Seq)):
            segs = self.get(('l', v.id)) if isinstance(v, Lst) else v.segs
            r = ZERO
            for s in segs:
                if s is PRE:
                    return self.opaque('len', (), 'int')
                x = s.guard
                for (vv, n) in reversed(s.loops):
                    x = mksum(vv, ZERO, n, x)
                r = r + x
            return r
        if isinstance(v, Dct):
            ents = self.get(('d', v.id))
            if all(e is not PRE and not e[0] and e[1].const == 1 for e in ents):
                return num(len(ents))
            return app('len', (self.to_term(v),), 'int')
        if isinstance(v, Rng):
            if v.step.const == 1:
                return v.hi - v.lo
            return app('len', (self.to_term(v),), 'int')
        if isinstance(v, IteV):
            return ite(v.c, self.length(v.a), self.length(v.b))
        t = self.to_term(v)
        a = t.atom
        if a is not None and a.head == 'str':
            return num(len(a.args[0]))
        if a is not None and a.head in ('values', 'keys', 'items'):
            return app('len', (a.args[0],), 'int')
        if a is not None and a.head == 'slice':
            lo, hi = a.args[1], a.args[2]
            base = app('len', (a.args[0],), 'int')
            if hi is NONE:
                return base - lo
        return app('len', (t,), 'int')

    def new_list(self, segs):
        id = self.new_id()
        self.put(('l', id), tuple(segs))
        return Lst(id)

    def new_dict(self, ents):
        id = self.new_id()
        self.put(('d', id), tuple(ents))
        return Dct(id)

    def list_append(self, l, v):
        segs = self.get(('l', l.id))
        self.put(('l', l.id), segs + (Seg((), ONE, v),))

    def list_extend(self, l, v):
        q = self.to_seq(v)
        segs = self.get(('l', l.id))
        if q is None:
            self.taint('extend')
            return
        self.put(('l', l.id), segs + tuple(q.segs))

    def dict_view(self, d, what):
        ents = self.get(('d', d.id))
        if any(e is PRE for e in ents) or (len(ents) > 1 and any(e[0] for e in ents)):
            return P(Atom(what, (self.to_term(d),), 'obj'))
        segs = []
        for e in ents:
            val = {'keys': e[2], 'values': e[3], 'items': Tup([e[2], e[3]])}[what]
            segs.append(Seg(e[0], e[1], val))
        return Seq(segs)

    def dict_get(self, d, key):
        ents = self.get(('d', d.id))
        kt = self.to_term(key)
        res = None
        # last write wins: scan from the end
        out = UNDEF
        for e in reversed(ents):
            if e is PRE:
                rest = self.typed(app('dictitem', (app('dict#', (d.id,), 'obj'), kt), 'obj'))
                return rest if out is UNDEF else self._chain(out, rest)
            loops, g, k, v = e
            if loops:
                # one entry per iteration
                if len(loops) == 1:
                    var, n = loops[0]
                    c = g * eq(self.to_term(k), kt)
                    sols = [a for a in c.atoms() if a.head == 'eq0']
                    if len(c.terms) == 1 and len(sols) == 1 and c.atom is sols[0]:
                        s = solve_for(sols[0].args[0], var)
                        if s is not None and isinstance(v, Poly):
                            inr = b_not(lt0(s)) * lt0(s - n)
                            nv = subst(v, {var: s})
                            if inr.const == 1 and out is UNDEF:
                                return nv
                            out = self._push(out, inr, nv)
                            continue
                rest = app('dictitem', (self.to_term(d), kt), 'obj')
                return rest if out is UNDEF else self._chain(out, rest)
            c = g * eq(self.to_term(k), kt)
            if c.const == 0:
                continue
            if c.const == 1:
                return v if out is UNDEF else self._chain(out, v)
            out = self._push(out, c, v)
        if out is UNDEF:
            return self.opaque('KeyError', (kt,))
        # the last candidate must be the one
        if len(out) == 1:
            return out[0][1]
        return self._chain(out[:-1], out[-1][1])

    def _push(self, out, c, v):
        return ([] if out is UNDEF else out) + [(c, v)]

    def _chain(self, out, last):
        r = last
        for c, v in reversed(out):
            r = self.join(c, v, r)
        return r

    def dict_has(self, d, key):
        ents = self.get(('d', d.id))
        kt = self.to_term(key)
        r = ZERO
        for e in ents:
            if e is PRE:
                r = b_or(r, ind('haskey', (app('dict#', (d.id,), 'obj'), kt)))
                continue
            loops, g, k, v = e
            c = g * eq(self.to_term(k), kt)
            for var, n in reversed(loops):
                c = mkany_v(var, n, c)
            r = b_or(r, c)
        return r

    # ------------------------------------------------------------ attributes

    def getattr(self, v, name):
        if isinstance(v, Obj):
            r = self.get(('a', v.id, name))
            if r is not UNDEF:
                return r
            r = self.schema_attr(v, name)
            if r is not UNDEF:
                self.base[('a', v.id, name)] = r
                return r
            if v.cls is not None:
                m = v.cls.find(name)
                if m is not None:
                    if isinstance(m, Fn) and any(isinstance(d, ast.Name) and d.id == 'property' for d in m.node.decorator_list):
                        return self.call_fn(m, [v], {})
                    if isinstance(m, Fn) and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list):
                        return m
                    return Bound(v, m)
                for c in [v.cls] + [b for b in v.cls.bases if isinstance(b, Cls)]:
                    if name in c.attrs:
                        return c.attrs[name]
            return self.opaque('attr:' + name, (self.to_term(v),))
        if isinstance(v, SymObj):
            k = ('sa', v.term.key, name)
            r = self.get(k)
            if r is not UNDEF:
                return r
            r = self.schema_attr(v, name)
            if r is not UNDEF:
                self.base[k] = r
                return r
            if v.cls is not None:
                m = v.cls.find(name)
                if m is not None:
                    return Bound(v, m)
            r = self.typed(app('attr', (v.term, name), 'obj'))
            return r
        if isinstance(v, IteV):
            return self.join(v.c, self.getattr(v.a, name), self.getattr(v.b, name))
        if isinstance(v, Mod):
            env = self.module_env(v.name)
            if name in env:
                return env[name]
            if v.name + '.' + name in self.pkg.asts:
                return Mod(v.name + '.' + name)
            return self.opaque('module attr:' + v.name + '.' + name)
        if isinstance(v, Ext):
            return npmodel.ext_attr(self, v, name)
        if isinstance(v, Cls):
            m = v.find(name)
            if m is not None:
                return m
            if name in v.attrs:
                return v.attrs[name]
            return self.opaque('class attr:' + name)
        if isinstance(v, Arr):
            return npmodel.arr_attr(self, v, name)
        if isinstance(v, (Fn, Bound)) and name == '__code__':
            return app('code', tuple(string(x.arg) for x in (v.fn if isinstance(v, Bound) else v).node.args.args), 'obj')
        if isinstance(v, Poly) and v.atom is not None and v.atom.head == 'code' and name == 'co_varnames':
            return Tup(list(v.atom.args))
        if isinstance(v, (Fn, Bound)) and name in ('__code__', '__name__'):
            return app('attr', (string('function'), name), 'obj')
        if isinstance(v, (Lst, Dct, Tup, Seq, Rng)):
            return Method(v, name)
        if isinstance(v, Poly):
            sh = shannon_atoms((v,))
            if sh and not is_numeric(v):
                a = sh[0]
                return self.join(P(a), self.getattr(cofactor(v, a, 1), name), self.getattr(cofactor(v, a, 0), name))
            a = v.atom
            if a is not None and (a.head == 'fun' or a.kind == 'fun') and name == '__code__':
                # a function of the time, which the package requires to be called t
                return app('code', (string('t'),), 'obj')
            k = ('sa', v.key, name)
            r = self.get(k)
            if r is not UNDEF:
                return r
            r = self.schema_attr(v, name)
            if r is not UNDEF:
                return r
            if name == 'real' and is_numeric(v):
                return app('real', (v,))
            if name in npmodel.POLY_METHODS:
                return Method(v, name)
            if a is not None and a.kind == 'obj' and a.head not in ('opaque',):
                if name in npmodel.OBJ_METHODS:
                    return Method(v, name)
                return self.typed(app('attr', (v, name), 'obj'))
            return Method(v, name)
        return self.opaque('attr:' + name)

    def schema_attr(self, v, name):
        f = self.schema.get('attr')
        if f is None:
            return UNDEF
        r = f(self, v, name)
        return UNDEF if r is None else r

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            if self.schema.get('attr') is not None and self.get(('a', v.id, name)) is UNDEF:
                r = self.schema_attr(v, name)
                if r is not UNDEF:
                    self.base[('a', v.id, name)] = r
            self.put(('a', v.id, name), val)
            return
        if isinstance(v, Arr) and name == 'shape':
            return
        if isinstance(v, IteV):
            comp = self.branch(v.c, lambda: (self.setattr(v.a, name, val), {'normal': (ONE, self.state, None)})[1],
                               lambda: (self.setattr(v.b, name, val), {'normal': (ONE, self.state, None)})[1])
            self.state = comp['normal'][1]
            return
        t = self.to_term(v)
        self.put(('sa', t.key, name), val)
        self.log('setattr', (t, string(name), self.to_term(val)))

    # ------------------------------------------------------------ items

    def getitem(self, v, key):
        if isinstance(v, IteV):
            return self.join(v.c, self.getitem(v.a, key), self.getitem(v.b, key))
        if isinstance(key, IteV):
            return self.join(key.c, self.getitem(v, key.a), self.getitem(v, key.b))
        if isinstance(v, Arr):
            r = self.index_array(v, key) if not isinstance(key, (Lst, Arr)) else None
            if r is None:
                return npmodel.fancy_index(self, v, key)
            return r
        if isinstance(v, Tup):
            if isinstance(key, Poly) and key.const is not None:
                i = int(key.const)
                if -len(v.vals) <= i < len(v.vals):
                    return v.vals[i]
            if isinstance(key, Slice):
                lo = 0 if key.lo is None else key.lo.const
                hi = None if key.hi is None else key.hi.const
                if lo is not None and (key.hi is None or hi is not None):
                    return Tup(v.vals[int(lo):None if hi is None else int(hi)])
            return app('item', (self.to_term(v), self.to_term(key)), 'obj')
        if isinstance(v, (Lst, Seq)):
            return self.list_item(v, key)
        if isinstance(v, Dct):
            return self.dict_get(v, key)
        if isinstance(v, Obj) and v.cls is not None and v.cls.find('__getitem__') is not None:
            return self.call_bound(Bound(v, v.cls.find('__getitem__')), [key], {})
        if isinstance(v, Rng):
            if isinstance(key, Poly):
                if key.const is not None and key.const < 0:
                    return v.hi + scale(v.step, key.const)
                return v.lo + key * v.step
        if isinstance(v, (Poly, SymObj)):
            t = self.to_term(v)
            if isinstance(key, Slice):
                if t.atom is not None and t.atom.head == 'str' and all(x is None or x is NONE or (isinstance(x, Poly) and x.const is not None) for x in (key.lo, key.hi, key.step)):
                    c = [None if x is None or x is NONE else int(x.const) for x in (key.lo, key.hi, key.step)]
                    return string(t.atom.args[0][c[0]:c[1]:c[2]])
                if key.step is None:
                    lo = key.lo if key.lo is not None else ZERO
                    hi = key.hi if key.hi is not None else NONE
                    return app('slice', (t, lo, hi), 'obj')
                return app('item', (t, self.to_term(key)), 'obj')
            kt = self.to_term(key)
            a = t.atom
            if a is not None and a.head == 'tuple' and kt.const is not None:
                return self.typed(a.args[int(kt.const)])
            if a is not None and a.head == 'slice' and is_numeric(kt):
                if kt.const is not None and kt.const < 0:
                    if a.args[2] is NONE:
                        return self.getitem(a.args[0], kt)
                else:
                    return self.getitem(a.args[0], kt + a.args[1])
            if a is not None and a.head in ('values', 'items', 'keys'):
                return self.elem(v, kt)
            return self.typed(app('item', (t, kt), 'obj'))
        return self.opaque('item')

    def list_item(self, v, key):
        segs = self.get(('l', v.id)) if isinstance(v, Lst) else v.segs
        if isinstance(key, Slice):
            if all(isinstance(s, Seg) and s.plain for s in segs) and key.step is None:
                lo = 0 if key.lo is None else key.lo.const
                hi = len(segs) if key.hi is None else key.hi.const
                if lo is not None and hi is not None:
                    return self.new_list(list(segs)[int(lo):int(hi)])
            if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].loops) == 1 and segs[0].guard.const == 1 and key.step is None:
                (var, n), val = segs[0].loops[0], segs[0].value
                lo = ZERO if key.lo is None else norm_bound(key.lo, n)
                hi = n if key.hi is None else norm_bound(key.hi, n)
                if isinstance(val, (Poly, SymObj, Tup)) or lo.const == 0:
                    w = fresh('k')
                    if lo.const == 0 and hi is n:
                        return Seq(segs)
                    return Seq([Seg(((w, hi - lo),), ONE, self.subst_value(val, {var: P(w) + lo}))])
            return app('item', (self.to_term(v), self.to_term(key)), 'obj')
        if isinstance(key, Poly):
            c = key.const
            if c is not None and c.denominator == 1:
                i = int(c)
                if i >= 0:
                    if len(segs) > i and all(isinstance(s, Seg) and s.plain for s in segs[:i + 1]):
                        return segs[i].value
                    if i == 0 and segs and isinstance(segs[0], Seg):
                        return self.first_of(segs)
                else:
                    if len(segs) >= -i and all(isinstance(s, Seg) and s.plain for s in segs[i:]):
                        return segs[i].value
            if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].loops) == 1 and segs[0].guard.const == 1:
                (var, n), val = segs[0].loops[0], segs[0].value
                k = key if not (c is not None and c < 0) else n + key
                return self.subst_value(val, {var: k})
        return self.typed(app('item', (self.to_term(v), self.to_term(key)), 'obj'))

    def first_of(self, segs):
        """element 0 of a list given by segments"""
        s = segs[0]
        if s.plain:
            return s.value
        v = s.value
        c = s.guard
        if not s.loops:
            if len(segs) == 1:
                return v
            return self.join(c, v, self.first_of(segs[1:]))
        anyc = c
        for i, (var, n) in reversed(list(enumerate(s.loops))):
            v = self.first_value(var, n, anyc, v) if not isinstance(v, (Lst, Dct, Obj)) else self.first_value(var, n, anyc, v)
            anyc = mkany_v(var, n, anyc)
        if len(segs) == 1:
            return v
        return self.join(anyc, v, self.first_of(segs[1:]))

    def subst_value(self, v, m):
        if isinstance(v, Poly):
            return subst(v, m)
        if isinstance(v, SymObj):
            return SymObj(subst(v.term, m), v.cls)
        if isinstance(v, Tup):
            return Tup([self.subst_value(x, m) for x in v.vals])
        if isinstance(v, Lst):
            segs = self.get(('l', v.id))
            return self.new_list([self.subst_seg(s, m) for s in segs])
        if isinstance(v, Dct):
            ents = self.get(('d', v.id))
            return self.new_dict([e if e is PRE else (tuple((a, subst(n, m)) for a, n in e[0]), subst(e[1], m), self.subst_value(e[2], m), self.subst_value(e[3], m)) for e in ents])
        if isinstance(v, Arr):
            axes = [(a[0], subst(a[1], m)) if a[0] == 'fix' else (a[0], a[1], subst(a[2], m), a[3]) for a in v.axes]
            c = self.get(('c', v.cell))
            shape = tuple(subst(s, m) for s in v.shape)
            f = self.content(v)
            vs = [fresh('a') for _ in v.shape]
            return self.new_arr(shape, lambda idx: subst(subst(f(tuple(P(x) for x in vs)), m), {x: i for x, i in zip(vs, idx)}), v.dtype)
        if isinstance(v, IteV):
            return IteV(subst(v.c, m), self.subst_value(v.a, m), self.subst_value(v.b, m))
        return v

    def subst_seg(self, s, m):
        if not isinstance(s, Seg):
            return s
        return Seg([(a, subst(n, m)) for a, n in s.loops], subst(s.guard, m), self.subst_value(s.value, m))

    def setitem(self, v, key, val):
        if isinstance(v, IteV):
            comp = self.branch(v.c, lambda: (self.setitem(v.a, key, val), {'normal': (ONE, self.state, None)})[1],
                               lambda: (self.setitem(v.b, key, val), {'normal': (ONE, self.state, None)})[1])
            self.state = comp['normal'][1]
            return
        if isinstance(v, Arr):
            keys = key.vals if isinstance(key, Tup) else (key,)
            if all(isinstance(k, (Poly, Slice)) or k is NEWAXIS or k is ELLIPSIS for k in keys):
                n = [k for k in keys if k is not NEWAXIS and k is not ELLIPSIS]
                full = Tup(list(keys)) if isinstance(key, Tup) else key
                view = self.index_view(v, full)
                if view is not None:
                    self.store_value(view, val)
                    return
            r = npmodel.fancy_store(self, v, key, val)
            if not r:
                self.taint('array store')
                self.put(('c', v.cell), Content(lambda idx, o=self.opaque('store'): o))
            return
        if isinstance(v, Dct):
            ents = self.get(('d', v.id))
            kt = self.to_term(key)
            self.put(('d', v.id), tuple(ents) + (((), ONE, key, val),))
            # drop an older plain entry with the same key, in place
            new = []
            replaced = False
            for e in ents:
                if e is not PRE and not e[0] and e[1].const == 1 and eq(self.to_term(e[2]), kt).const == 1:
                    new.append(((), ONE, e[2], val))
                    replaced = True
                else:
                    new.append(e)
            if replaced:
                self.put(('d', v.id), tuple(new))
            return
        if isinstance(v, Lst):
            segs = self.get(('l', v.id))
            if isinstance(key, Poly) and key.const is not None:
                i = int(key.const)
                if all(isinstance(s, Seg) and s.plain for s in segs) and -len(segs) <= i < len(segs):
                    new = list(segs)
                    new[i] = Seg((), ONE, val)
                    self.put(('l', v.id), tuple(new))
                    return
            self.taint('list store')
            return
        t = self.to_term(v)
        self.log('setitem', (t, self.to_term(key), self.to_term(val)))

    def index_view(self, a, key):
        """like index_array but always returns a view (0-d for scalars)"""
        keys = list(key.vals) if isinstance(key, Tup) else [key]
        last = None
        # make a 0-d view by fixing all axes
        tmp = self._index_view(a, keys)
        return tmp

    def _index_view(self, a, keys):
        n_real = sum(1 for k in keys if not (k is NEWAXIS or k is ELLIPSIS))
        keys = list(keys)
        if any(k is ELLIPSIS for k in keys):
            i = next(j for j, k in enumerate(keys) if k is ELLIPSIS)
            keys[i:i + 1] = [Slice(None, None, None)] * (a.ndim - n_real)
        else:
            keys += [Slice(None, None, None)] * (a.ndim - n_real)
        if sum(1 for k in keys if k is not NEWAXIS) != a.ndim:
            return None
        if all(isinstance(k, Poly) for k in keys):
            axes = []
            for ax in a.axes:
                if ax[0] == 'fix':
                    axes.append(ax)
                else:
                    _, va, off, st = ax
                    axes.append(('fix', off + scale(norm_index(keys[va], a.shape[va]), st)))
            return Arr(a.cell, axes, (), a.dtype)
        r = self.index_array(a, Tup(keys))
        return r if isinstance(r, Arr) else None

    # ------------------------------------------------------------ expressions

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expr:' + type(e).__name__)
        return m(e)

    def eval_key(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*(None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_key(x) for x in s.elts])
        return self.eval(s)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, complex):
            return num(v.real) + num(v.imag) * P(Atom('J', ()))
        if isinstance(v, str):
            return string(v)
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELLIPSIS
        return self.opaque('const')

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval_key(e.slice))

    def e_Tuple(self, e):
        return Tup([self.eval(x) for x in e.elts])

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                q = self.to_seq(self.eval(x.value))
                if q is None:
                    return self.opaque('starred')
                segs += q.segs
            else:
                segs.append(Seg((), ONE, self.eval(x)))
        return self.new_list(segs)
    e_Set = e_List

    def e_Dict(self, e):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.taint('dict unpack')
                continue
            ents.append(((), ONE, self.eval(k), self.eval(v)))
        return self.new_dict(ents)

    def e_JoinedStr(self, e):
        return self.opaque_str('fstring')

    def opaque_str(self, why):
        return P(Atom('opaque', (why,), 'str'))

    def e_Lambda(self, e):
        return Fn(e, self.cur_frame, self.cur_module, None, tuple(self.eval(d) for d in e.args.defaults))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if c.const is not None:
            return self.eval(e.body if c.const == 1 else e.orelse)
        res = {}

        def f(x):
            v = self.eval(x)
            return {'normal': (ONE, self.state, v)}
        comp = self.branch(c, lambda: f(e.body), lambda: f(e.orelse))
        _c, st, v = comp['normal']
        self.state = st
        return v

    def e_BoolOp(self, e):
        vals = []
        r = None
        isand = isinstance(e.op, ast.And)
        nf = 0
        try:
            for x in e.values:
                v = self.eval(x)
                c = self.truth(v)
                if r is None:
                    r = c
                else:
                    r = b_and(r, c) if isand else b_or(r, c)
                if r.const is not None and ((isand and r.const == 0) or (not isand and r.const == 1)):
                    return r
            return r
        finally:
            pass

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return npmodel.elementwise(self, lambda a: -a, [v])
        if isinstance(e.op, ast.UAdd):
            return v
        return self.opaque('unary', (self.to_term(v),))

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        if isinstance(op, ast.MatMult):
            return npmodel.matmul(self, a, b)
        if isinstance(a, IteV):
            return self.join(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, IteV):
            return self.join(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        if isinstance(op, ast.Add):
            if isinstance(a, (Lst, Seq)) and isinstance(b, (Lst, Seq)):
                return self.new_list(list(self.to_seq(a).segs) + list(self.to_seq(b).segs))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.vals + b.vals)
            if isinstance(a, Poly) and isinstance(b, Poly) and ('str' in (kind_of(a), kind_of(b))):
                if all(x.atom is not None and x.atom.head == 'str' for x in (a, b)):
                    return string(a.atom.args[0] + b.atom.args[0])
                return app('concat', (a, b), 'str')
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Lst) and isinstance(y, Poly):
                    segs = self.get(('l', x.id))
                    if y.const is not None and y.const <= 8:
                        return self.new_list(list(segs) * int(y.const))
                    if len(segs) == 1 and segs[0].plain:
                        v = segs[0].value
                        t = self.to_term(v)
                        return self.new_arr((y,), lambda idx: t, 'O')
        if isinstance(a, Poly) and isinstance(b, Poly):
            return npmodel.scalar_binop(self, op, a, b)
        if isinstance(op, ast.Mod) and isinstance(a, Poly) and kind_of(a) == 'str':
            return self.opaque_str('format')
        return npmodel.array_binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        r = None
        for op, x in zip(e.ops, e.comparators):
            right = self.eval(x)
            c = self.compare(op, left, right)
            if not isinstance(c, Poly):
                if len(e.ops) > 1:
                    return self.opaque('chained array comparison')
                return c
            r = c if r is None else b_and(r, c)
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return b_not(c) if isinstance(op, ast.NotIn) else c
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = ONE if isinstance(a, Arr) and isinstance(b, Arr) and a.cell == b.cell else ZERO
                return r if isinstance(op, ast.Is) else b_not(r)
            return npmodel.elementwise(self, lambda x, y: npmodel.scalar_compare(op, x, y), [a, b], dtype='b')
        if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)) and isinstance(op, (ast.Eq, ast.NotEq)):
            ta, tb = self.to_term(a), self.to_term(b)
            c = ONE if ta is tb else eq(ta, tb)
            return c if isinstance(op, ast.Eq) else b_not(c)
        for x in (a, b):
            if isinstance(x, (Lst, Tup)) and not isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                # list comparisons order lexicographically
                if self.to_term(a) is self.to_term(b):
                    return ONE if isinstance(op, (ast.GtE, ast.LtE)) else ZERO
                return ind('cmp:' + type(op).__name__, (self.to_term(a), self.to_term(b)))
        if isinstance(a, IteV):
            return ite(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, IteV):
            return ite(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        ta, tb = self.to_term(a), self.to_term(b)
        return npmodel.scalar_compare(op, ta, tb)

    def contains(self, coll, x):
        xt = self.to_term(x)
        if isinstance(coll, Method):
            pass
        if isinstance(coll, Dct):
            return self.dict_has(coll, x)
        if isinstance(coll, IteV):
            return ite(coll.c, self.contains(coll.a, x), self.contains(coll.b, x))
        if isinstance(coll, (Lst, Tup, Seq)):
            q = self.to_seq(coll)
            if q is None:
                return ind('in', (xt, self.opaque('list')))
            r = ZERO
            for s in q.segs:
                c = s.guard * self.value_eq(s.value, x)
                for var, n in reversed(s.loops):
                    c = mkany_v(var, n, c)
                r = b_or(r, c)
            return r
        t = self.to_term(coll)
        a = t.atom
        if a is not None and a.head in ('keys',):
            return ind('in', (xt, a.args[0]))
        if a is not None and a.head == 'str' and xt.atom is not None and xt.atom.head == 'str':
            return ONE if xt.atom.args[0] in a.args[0] else ZERO
        return ind('in', (xt, t))

    def value_eq(self, a, b):
        return eq(self.to_term(a), self.to_term(b))

    def truth(self, v):
        if isinstance(v, IteV):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Poly):
            if v.const is not None:
                return ONE if v.const != 0 else ZERO
            if all(a.head in IDEM for a in v.atoms()):
                return v
            a = v.atom
            if a is not None and a.head == 'str':
                return ONE if a.args[0] else ZERO
            if v is NONE:
                return ZERO
            sh = shannon_atoms((v,))
            if sh:
                x = sh[0]
                return ite(P(x), self.truth(cofactor(v, x, 1)), self.truth(cofactor(v, x, 0)))
            if is_numeric(v):
                return b_not(eq0(v))
            if a is not None and a.kind == 'fun':
                return ONE
            return ind('truth', (v,))
        if isinstance(v, (Lst, Tup, Dct, Seq)):
            n = self.length(v)
            return lt0(-n)
        if isinstance(v, (Obj, Fn, Bound, Cls, Ext, Mod)):
            return ONE
        if isinstance(v, Arr):
            if not v.shape or all(s.const == 1 for s in v.shape):
                return self.truth(self.read(v, tuple(ZERO for _ in v.shape)))
        return ind('truth', (self.to_term(v),))

    # comprehensions

    def comp_segs(self, gens, eltf):
        """segments of [elt for ...]"""
        def rec(i):
            if i == len(gens):
                return [Seg((), ONE, eltf())]
            g = gens[i]
            seq = self.to_seq(self.eval(g.iter))
            if seq is None:
                self.taint('comprehension')
                return [Seg(((fresh('k'), self.opaque('len', (), 'int')),), ONE, self.opaque('elem'))]
            out = []
            for s in seq.segs:
                fs = []
                for v, n in s.loops:
                    fs += [P(v), n - 1 - P(v)]
                    if v in self.active_vars:
                        self.taint('nested iteration over the same sequence')
                with facts(*fs):
                    self.loops.extend(s.loops)
                    self.active_vars.extend(v for v, _ in s.loops)
                    path0 = self.path
                    try:
                        self.assign(g.target, s.value)
                        c = s.guard
                        for t in g.ifs:
                            c = c * self.truth(self.eval(t))
                        if c.const == 0:
                            continue
                        self.path = self.path * c
                        for r in rec(i + 1):
                            out.append(Seg(s.loops + r.loops, c * r.guard, r.value))
                    finally:
                        self.path = path0
                        for _ in s.loops:
                            self.loops.pop()
                            self.active_vars.pop()
            return out
        # own scope
        old = self.cur_frame
        fid = self.new_id()
        self.frames[fid] = {'parent': old}
        self.cur_frame = fid
        try:
            return rec(0)
        finally:
            self.cur_frame = old

    def e_ListComp(self, e):
        return self.new_list(self.comp_segs(e.generators, lambda: self.eval(e.elt)))

    def e_GeneratorExp(self, e):
        return Seq(self.comp_segs(e.generators, lambda: self.eval(e.elt)))
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        segs = self.comp_segs(e.generators, lambda: Tup([self.eval(e.key), self.eval(e.value)]))
        return self.new_dict([(s.loops, s.guard, s.value.vals[0], s.value.vals[1]) for s in segs])

    def e_Starred(self, e):
        return self.opaque('starred')

    # ------------------------------------------------------------ calls

    def e_Call(self, e):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            cls = self.frames[self.cur_frame].get('cls')
            selfv = self.frames[self.cur_frame].get('self')
            args, kw = self.eval_args(e)
            if cls is not None:
                for b in cls.bases:
                    if isinstance(b, Cls):
                        m = b.find(e.func.attr)
                        if m is not None:
                            return self.call_fn(m, [selfv] + args, kw)
            return NONE
        f = self.eval(e.func)
        args, kw = self.eval_args(e)
        if isinstance(f, (Fn, Bound, Cls)) or (isinstance(f, Ext) and f.name in ('builtins.type', 'builtins.isinstance')):
            if len(args) == len(e.args):
                args = [FloatConst(v) if self.is_float(x, v) else v for x, v in zip(e.args, args)]
            for k in e.keywords:
                if k.arg is not None and self.is_float(k.value, kw.get(k.arg)):
                    kw[k.arg] = FloatConst(kw[k.arg])
        return self.call_value(f, args, kw)

    def is_float(self, node, v):
        """an integral constant written as a floating point number"""
        if not isinstance(v, Poly) or v.const is None or v.const.denominator != 1:
            return False
        if isinstance(node, ast.Constant):
            return isinstance(node.value, float)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return self.is_float(node.operand, v)
        return isinstance(node, ast.Name) and self.cur_frame is not None and node.id in self.frames[self.cur_frame].get('floats', ())

    def note_float(self, target, node):
        if self.cur_frame is None:
            return
        if isinstance(target, ast.Name):
            fl = self.frames[self.cur_frame].setdefault('floats', set())
            lit = isinstance(node, ast.Constant) and isinstance(node.value, float) or isinstance(node, ast.Name) and node.id in fl
            (fl.add if lit else fl.discard)(target.id)
        elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(node, (ast.Tuple, ast.List)) and len(target.elts) == len(node.elts):
            for t, x in zip(target.elts, node.elts):
                self.note_float(t, x)

    def eval_args(self, e):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                q = self.to_seq(v)
                if q is not None and all(s.plain for s in q.segs):
                    args += [s.value for s in q.segs]
                else:
                    self.taint('star args')
                    args.append(self.opaque('star'))
            else:
                args.append(self.eval(x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, Dct):
                    for ent in self.get(('d', v.id)):
                        if ent is PRE or ent[0]:
                            self.taint('**kwargs')
                            continue
                        a = self.to_term(ent[2]).atom
                        if a is not None and a.head == 'str':
                            kw[a.args[0]] = ent[3]
                else:
                    self.taint('**kwargs')
            else:
                kw[k.arg] = self.eval(k.value)
        return args, kw

    def call_value(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call_bound(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return npmodel.call_ext(self, f.name, args, kw)
        if isinstance(f, Method):
            return npmodel.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Obj):
            m = f.cls.find('__call__') if f.cls else None
            if m is not None:
                return self.call_bound(Bound(f, m), args, kw)
        if isinstance(f, IteV):
            def g(x):
                v = self.call_value(x, args, kw)
                return {'normal': (ONE, self.state, v)}
            comp = self.branch(f.c, lambda: g(f.a), lambda: g(f.b))
            _c, st, v = comp['normal']
            self.state = st
            return v
        if isinstance(f, Overloads):
            return self.call_overload(f, None, args, kw)
        if isinstance(f, (Poly, SymObj)):
            t = self.to_term(f)
            a = t.atom
            if a is not None and a.head == 'attr':
                return self.call_unknown_method(a.args[0], a.args[1], args, kw)
            if all((x.kind == 'fun' or x.head in IDEM) for x in t.atoms()) and t.terms:
                if len(args) == 1 and isinstance(args[0], Poly) and not kw:
                    return call(t, [args[0]])
                if len(args) == 1 and isinstance(args[0], Arr):
                    return npmodel.elementwise(self, lambda x: call(t, [x]), [args[0]])
                return call(t, [self.to_term(x) for x in args])
            targs = tuple(self.to_term(x) for x in args) + tuple(k + '=' for k in kw) + tuple(self.to_term(x) for x in kw.values())
            self.log('callvalue', (t,) + tuple(x for x in targs if isinstance(x, Poly)))
            return app('call', (t,) + tuple(x for x in targs if isinstance(x, Poly)), 'obj')
        self.taint('call of ' + type(f).__name__)
        return self.opaque('call')

    def call_unknown_method(self, obj, name, args, kw):
        targs = [self.to_term(x) for x in args]
        tkw = [app('kw', (k, self.to_term(v)), 'obj') for k, v in sorted(kw.items())]
        self.log('call:' + name, [obj] + targs + tkw)
        return self.typed(app('ret:' + name, tuple([obj] + targs + tkw), 'obj'))

    def call_bound(self, b, args, kw):
        obj, fn = b.obj, b.fn
        if isinstance(fn, Overloads):
            return self.call_overload(fn, obj, args, kw)
        cls = obj.cls if isinstance(obj, (Obj, SymObj)) else None
        if cls is not None and self.boundary(cls, fn.name):
            return self.boundary_call(obj, fn, args, kw)
        return self.call_fn(fn, [obj] + args, kw)

    def boundary_call(self, obj, fn, args, kw):
        names = [x.arg for x in fn.node.args.args][1:]
        bound = {}
        for nme, v in zip(names, args):
            bound[nme] = v
        bound.update(kw)
        bound = {k: plain_value(v) for k, v in bound.items()}
        nd = len(fn.defaults)
        for nme, d in zip(names[len(names) - nd:] if nd else [], fn.defaults):
            bound.setdefault(nme, d)
        targs = [self.to_term(obj)]
        for nme in names:
            if nme in bound:
                targs.append(self.to_term(bound[nme]))
            else:
                targs.append(string('<missing>'))
        self.log('call:' + fn.name, targs)
        return self.typed(app('ret:' + fn.name, tuple(targs), 'obj'))

    def call_overload(self, ov, obj, args, kw):
        for types, fn in ov.fns:
            if len(types) == len(args):
                if obj is not None and isinstance(obj, (Obj, SymObj)) and obj.cls is not None and self.boundary(obj.cls, fn.name):
                    return self.boundary_call(obj, fn, args, kw)
                return self.call_fn(fn, ([obj] if obj is not None else []) + args, kw)
        self.taint('no overload')
        return self.opaque('overload')

    def instantiate(self, c, args, kw):
        if self.boundary(c, '__init__'):
            init = c.find('__init__')
            names = [x.arg for x in init.node.args.args][1:] if init else []
            bound = dict(zip(names, args))
            bound.update(kw)
            bound = {k: plain_value(v) for k, v in bound.items()}
            if init:
                nd = len(init.defaults)
                for nme, d in zip(names[len(names) - nd:] if nd else [], init.defaults):
                    bound.setdefault(nme, d)
            targs = [self.to_term(bound[nme]) if nme in bound else string('<missing>') for nme in names]
            self.log('new:' + c.name, targs)
            return SymObj(app('new', (c.name,) + tuple(targs), 'obj'), c)
        id = self.new_id()
        o = Obj(id, c)
        self.objnames[id] = '%s#%d' % (c.name, sum(1 for x in self.objnames.values() if str(x).startswith(c.name + '#')) + 1)
        init = c.find('__init__')
        if init is not None:
            self.call_fn(init, [o] + args, kw)
        elif any(isinstance(b, Ext) for b in c.bases) and args:
            self.put(('a', id, 'args'), Tup([plain_value(v) for v in args]))
        return o

    def call_fn(self, fn, args, kw):
        node = fn.node
        self.ncalls += 1
        qual = (fn.cls.name + '.' if fn.cls else '') + fn.name
        if self.depth > 60 or sum(1 for n in self.callstack if n is node) >= 3:
            self.taint('recursion')
            return self.opaque('recursion:' + qual)
        if self.ncalls > 60000:
            self.taint('budget')
            return self.opaque('budget')
        fid = self.new_id()
        self.frames[fid] = {'parent': fn.frame, 'cls': fn.cls, 'self': args[0] if args else None}
        self.touched.add((fn.module, qual))
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        for k, v in kw.items():
            bound[k] = v
        floats = self.frames[fid]['floats'] = set()
        for k, v in bound.items():
            if type(v) is FloatConst:
                floats.add(k)
                bound[k] = v.value
        extra = [plain_value(v) for v in extra]
        nd = len(fn.defaults)
        if nd:
            for nme, d, x in zip(names[-nd:], fn.defaults, a.defaults):
                if nme not in bound:
                    bound[nme] = d
                    if self.is_float(x, d):
                        floats.add(nme)
        if a.vararg:
            bound[a.vararg.arg] = Tup(extra)
        if a.kwarg:
            extra_kw = {k: plain_value(v) for k, v in kw.items() if k not in names}
            bound[a.kwarg.arg] = self.new_dict([((), ONE, string(k), v) for k, v in extra_kw.items()])
        for i, ka in enumerate(a.kwonlyargs):
            if ka.arg not in bound and a.kw_defaults[i] is not None:
                old = (self.cur_module, self.cur_frame)
                self.cur_module, self.cur_frame = fn.module, fn.frame
                bound[ka.arg] = self.eval(a.kw_defaults[i])
                self.cur_module, self.cur_frame = old
        missing = [nme for nme in names if nme not in bound]
        if missing:
            self.taint('missing argument %s of %s' % (missing, qual))
            for nme in missing:
                bound[nme] = self.opaque('missing:' + nme)
        old = (self.cur_frame, self.cur_module, self.site)
        self.cur_frame, self.cur_module = fid, fn.module
        self.site = (fn.module, qual, getattr(node, 'lineno', 0))
        self.callstack.append(node)
        self.depth += 1
        try:
            for k, v in bound.items():
                self.put(('v', fid, k), v)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
                self.taint('generator')
                return self.opaque('generator')
            comp = self.exec_block(node.body)
            comp = {('normal' if k in ('break', 'continue') else k): v for k, v in comp.items()}
            if 'return' in comp and 'normal' in comp:
                c, s, v = comp['return']
                c2, s2, _ = comp['normal']
                self.state = self.merge_states(c, s, s2)
                return self.join(c, v, NONE)
            if 'return' in comp:
                self.state = comp['return'][1]
                return comp['return'][2]
            if 'normal' in comp:
                self.state = comp['normal'][1]
                return NONE
            return self.opaque('raises:' + qual)
        finally:
            self.cur_frame, self.cur_module, self.site = old
            self.callstack.pop()
            self.depth -= 1
            if not self.frames[fid].get('captured'):
                pass


def _kind(p):
    return kind_of(p)


def _samedir(p, d):
    """p = s*d with s>0 rational"""
    if len(p.terms) != len(d.terms) or not p.terms:
        return False
    r = None
    for (m1, c1), (m2, c2) in zip(p.terms, d.terms):
        if m1 != m2:
            return False
        q = c1 / c2
        if r is None:
            r = q
        elif r != q:
            return False
    return r > 0


def replace_pre(p, celltags, orig):
    """replace pre(cell, idx) atoms by the contents before the loop"""
    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if isinstance(x, Lam):
            vs, b = open_lam(x)
            nb = rec(b)
            return x if node_key(nb) == node_key(b) else mklam(vs, nb)
        if isinstance(x, Poly):
            return _map(x)
        return x

    def _map(q):
        from .terms import _map_poly
        return _map_poly(q, at)

    def at(a):
        if a.head == 'pre' and a.args[0].atom in celltags:
            return orig(a)
        if not a.args:
            return P(a)
        na = tuple(rec(y) for y in a.args)
        if all(node_key(x) == node_key(y) for x, y in zip(na, a.args)):
            return P(a)
        return rebuild(a.head, na, a.kind)
    return rec(p)


def mkextr(head, init, n, w, x):
    """min/max of init and x(w) for w in [0,n)"""
    if w not in x.fv:
        return app(head + '2', (init, x))
    return raw_app(head + 'over', (init, n, mklam([w], x)))


def mkaccum(op, init, loops, segs):
    """ordered accumulation: init followed by the segments for every loop assignment"""
    new = []
    for s in segs:
        if isinstance(s, Lam):
            vs, body = open_lam(s)
            ns, g, val = body
        else:
            vs, (ns, g, val) = [], s
        lv = [v for v, _ in loops]
        new.append(mklam(lv + vs, (tuple(n for _, n in loops) + tuple(ns), g, val)))
    a = init.atom
    if a is not None and a.head == 'accum' and a.args[0] == op:
        return P(Atom('accum', (op, a.args[1], tuple(a.args[2]) + tuple(new)), 'mat'))
    return P(Atom('accum', (op, init, tuple(new)), 'mat'))


@smart('accum')
def _s_accum(op, init, segs, kind='mat'):
    a = init.atom
    if a is not None and a.head == 'accum' and a.args[0] == op:
        return P(Atom('accum', (op, a.args[1], tuple(a.args[2]) + tuple(segs)), 'mat'))
    return raw_app('accum', (op, init, segs), kind)


class _Axis:
    pass


NEWAXIS = _Axis()
ELLIPSIS = _Axis()
npmodel.NEWAXIS = NEWAXIS
npmodel.ELLIPSIS = ELLIPSIS
npmodel.UNDEF = UNDEF


def norm_index(i, n):
    c = i.const
    if c is not None:
        return i if c >= 0 else n + i
    neg_ = lt0(i)
    if neg_.const == 0:
        return i
    if neg_.const == 1:
        return n + i
    sh = shannon_atoms((i,))
    if sh:
        a = sh[0]
        return ite(P(a), norm_index(cofactor(i, a, 1), n), norm_index(cofactor(i, a, 0), n))
    # an index of unknown sign: assumed to be a valid non-negative index
    return i


def norm_bound(b, n):
    if b is NONE:
        return ZERO
    c = b.const
    if c is not None:
        return b if c >= 0 else n + b
    return norm_index(b, n)


npmodel.norm_index = norm_index
npmodel.norm_bound = norm_bound
