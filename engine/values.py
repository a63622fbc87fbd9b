"""Abstract Python values and the abstract store."""
from .terms import *


class Arr:
    """A view of a store cell.  axes[d] describes base dimension d:
    ('fix', Poly) or ('ax', view axis, offset Poly, step int)."""
    __slots__ = ('cell', 'axes', 'shape', 'dtype')

    def __init__(self, cell, axes, shape, dtype='f'):
        self.cell, self.axes, self.shape, self.dtype = cell, tuple(axes), tuple(shape), dtype

    def base_index(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            else:
                i = idx[a[1]]
                out.append(a[2] + (i if a[3] == 1 else scale(i, a[3])))
        return tuple(out)

    @property
    def ndim(self):
        return len(self.shape)


class Content:
    """index tuple -> Poly, memoised per set of facts."""
    __slots__ = ('f', 'memo', 'busy')

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, idx):
        k = (tuple(i.key for i in idx), tuple(f.key for f in FACTS))
        r = self.memo.get(k)
        if r is None:
            r = self.f(idx)
            self.memo[k] = r
        return r


class Lst:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Seg:
    """Part of a list: for each assignment of the loop variables (in order) for which guard
    holds, one element `value`."""
    __slots__ = ('loops', 'guard', 'value')

    def __init__(self, loops, guard, value):
        self.loops, self.guard, self.value = tuple(loops), guard, value

    @property
    def plain(self):
        return not self.loops and self.guard.const == 1


class Dct:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Tup:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)


class Obj:
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls


class SymObj:
    """An object known only by a term (element of a symbolic collection, result of a call)."""
    __slots__ = ('term', 'cls')

    def __init__(self, term, cls=None):
        self.term, self.cls = term, cls


class Fn:
    __slots__ = ('node', 'frame', 'module', 'cls', 'defaults', 'name')

    def __init__(self, node, frame, module, cls=None, defaults=(), name=None):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.defaults = defaults
        self.name = name or getattr(node, 'name', '<lambda>')


class Overloads:
    __slots__ = ('fns',)

    def __init__(self, fns):
        self.fns = fns      # list of (type names or None, Fn)


class Bound:
    __slots__ = ('obj', 'fn')

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Cls:
    __slots__ = ('name', 'node', 'module', 'bases', 'methods', 'attrs')

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.methods, self.attrs = [], {}, {}

    def find(self, m):
        if m in self.methods:
            return self.methods[m]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(m)
                if r is not None:
                    return r
        return None

    def names(self):
        s = {self.name}
        for b in self.bases:
            if isinstance(b, Cls):
                s |= b.names()
        return s


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext:
    """A name of an external library, e.g. numpy.linalg.norm, or a builtin."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Method:
    """A method of a builtin-like value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Rng:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=ONE):
        self.lo, self.hi, self.step = lo, hi, step


class Seq:
    """An iterable as a list of segments (not a heap list)."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = list(segs)


class IteV:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class State:
    """Functional store: key -> value.  Missing keys are looked up in the base (pre-state)."""
    __slots__ = ('d', 'w')

    def __init__(self, d=None, w=None):
        self.d = d if d is not None else {}
        self.w = w if w is not None else {}

    def clone(self):
        return State(dict(self.d), dict(self.w))


class FloatConst:
    """an integral constant handed to a call as a floating point number"""
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


def plain_value(v):
    return v.value if type(v) is FloatConst else v
