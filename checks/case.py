"""Case files and the objects they stand for."""
from checks.c06 import *

SPAN = 'sym:'


def jsonval(v):
    if isinstance(v, dict):
        return {k: jsonval(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonval(x) for x in v]
    if isinstance(v, str):
        return string(v)
    return v


class Case:
    """a case file under construction; coordinates lie on the z axis"""

    def __init__(self):
        self.coords, self.lines, self.nodes = [], [], []
        self.model = {'materials': [], 'cables': [], 'bundles': []}
        self.z = {}

    def at(self, cid, z='0'):
        """z: a number as text, or the name of a symbol"""
        zs = z if z.replace('.', '').replace('-', '').isdigit() else 'sym:' + z
        self.coords.append('%d 0.0 0 %s' % (cid, zs))
        self.z[cid] = topoly(Fraction(z)) if zs == z else nvar(z)
        return self

    def line(self, eid, *cids):
        self.lines.append('%d 0 0 %s' % (eid, ' '.join(map(str, cids))))
        return self

    def node(self, eid, cid):
        self.nodes.append('%d 0 1 %d' % (eid, cid))
        return self

    def add(self, part, **kw):
        self.model.setdefault(part, []).append(kw)
        return self

    def wire(self, mid, tag, n=None, **kw):
        if n is None:
            d = dict(materialType='Wire', resistance=nvar('Rw' + tag), inductance=nvar('Lw' + tag), capacitance=nvar('Cw' + tag))
        else:
            m = lambda nm: [[nvar('%s%s%d%d' % (nm, tag, i, j)) for j in range(n)] for i in range(n)]
            d = dict(materialType='Multiwire', resistanceVector=[nvar('Rw%s%d' % (tag, i)) for i in range(n)], inductanceMatrix=m('Lw'), capacitanceMatrix=m('Cw'))
        d.update(kw)
        return self.add('materials', materialId=mid, **d)

    def connector(self, mid, kind, **kw):
        return self.add('materials', materialId=mid, materialType='Connector', connectorType=kind, **kw)

    def cable(self, name, mid, elems, first, last, ndiv=3):
        return self.add('cables', name=name, materialId=mid, initialConnectorId=first, endConnectorId=last, elemIds=list(elems), ndiv=ndiv)

    def bundle(self, name, nested):
        return self.add('bundles', name=name, nestedElemIds=nested)

    def contents(self):
        m = dict(self.model)
        m['coordinates'] = self.coords
        m['elements'] = {'line': self.lines, 'node': self.nodes}
        return jsonval({'model': m})

    def parse(self, ctx, I):
        I.case = pyval(I, self.contents())
        return I.call_value(ctx.cls(I, 'jsonParser', 'Parser'), [string('case.smb.json')], {})


def the_line(ctx, I, name, tag, z0, z1, n=None, ndiv=3, mid=(), divs=None):
    """the transmission line a cable stands for"""
    zs = (z0,) + tuple(mid) + (z1,)
    pos = pyval(I, [[ZERO, ZERO, topoly(z)] for z in zs])
    pos = I.call_value(Ext('numpy.array'), [pos], {})
    if n is None:
        m = [nvar(x + tag) for x in ('Lw', 'Cw', 'Rw')]
    else:
        q = lambda nm, f: I.call_value(Ext('numpy.array'), [pyval(I, [[f(i, j) for j in range(n)] for i in range(n)])], {})
        m = [q('Lw', lambda i, j: nvar('Lw%s%d%d' % (tag, i, j))), q('Cw', lambda i, j: nvar('Cw%s%d%d' % (tag, i, j))),
             q('Rw', lambda i, j: nvar('Rw%s%d' % (tag, i)) if i == j else ZERO)]
    return I.call_value(ctx.cls(I, 'mtl', 'MTL'), [], dict(l=m[0], c=m[1], r=m[2], node_positions=pos, ndiv=pyval(I, divs) if divs else num(ndiv), name=string(name)))


def items(I, v):
    """the members of a known list"""
    s = I.to_seq(v)
    out = []
    n = I.call_value(Ext('builtins.len'), [v], {}).const
    return [I.getitem(v, num(k)) for k in range(int(n))]


def settle(I, bundles):
    for k, b in enumerate(bundles):
        havoc(I, b, 'v', 'v%d' % k)
        havoc(I, b, 'i', 'i%d' % k)


def start_networks(ctx, I, bundles, networks):
    """networks that have seen the currents of the state at hand"""
    d = I.new_dict([((), ONE, I.getattr(b, 'name'), b) for b in bundles])
    for x in networks:
        ctx.call(I, x, 'update_index_numbers', d)
        ctx.call(I, x, 'update_currents', d)


def result(I, bundles):
    """(label, value) of every voltage and current"""
    out = []
    for m, b in enumerate(bundles):
        v, i = snapshot(I, b, 'v'), snapshot(I, b, 'i')
        n, nx = [int(topoly(x).const) for x in npmodel.as_array(I, I.getattr(b, 'v')).shape]
        for c in range(n):
            for k in range(nx):
                out.append(('bundle%d.conductor%d.v%d' % (m, c, k), v(num(c), num(k))))
                if k < nx - 1:
                    out.append(('bundle%d.conductor%d.i%d' % (m, c, k), i(num(c), num(k))))
    return out


FACTS = []


def accepted(ctx, I, tag, rule):
    """the case was read without being refused"""
    bad = [(e, resimp(e.guard)) for e in I.events if e.name == 'reject']
    bad = [(e, g) for e, g in bad if g.const != 0]
    sure = [e for e, g in bad if g.const is not None]
    if sure:
        ctx.holds(tag + '.read', False, rule, sure[0].site, 'a valid case is refused')
    elif bad:
        ctx.undecided(tag + '.read', 'whether the case is refused depends on %s' % show(bad[0][1])[:120], rule)
    return not bad


def alike(ctx, tag, case, wanted, rule, steps=1):
    """the run of a case file does what the described objects do; wanted(I) -> (bundles, networks)"""
    I = ctx.interp()
    with facts(SMALL_DT, *FACTS):
        p = case.parse(ctx, I)
        if not accepted(ctx, I, tag, rule):
            return
        got = items(I, I.getattr(p, 'bundles'))
        settle(I, got)
        start_networks(ctx, I, got, items(I, I.getattr(p, 'networks')))
        ctx.call(I, p, 'run', DT * steps, DT)
        g = result(I, got)
        J = ctx.interp()
        bundles, networks = wanted(J)
        settle(J, bundles)
        start_networks(ctx, J, bundles, networks)
        nt = make_mtln(ctx, J, bundles, networks)
        ctx.call(J, nt, 'run_until', DT * steps, DT)
        w = result(J, bundles)
        ctx.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
        ctx.holds(tag + '.shape', [t for t, _ in g] == [t for t, _ in w], rule, None, '%d against %d quantities' % (len(g), len(w)))
        for (t, x), (t2, y) in zip(g, w):
            if t == t2:
                ctx.equal(I, tag + '.' + t, x, y, rule)


SRC = '''
def smooth(f, A, w):
    def s(t):
        return f(t, A, w)
    return s
'''


def sine(ctx, I, k):
    """the waveform of a terminal source of amplitude amp<k> and frequency freq<k>"""
    return I.call_value(reference(I, SRC, 'smooth'), [ctx.fun(I, 'waveforms', 'sin_pulse'), nvar('amp%d' % k), nvar('freq%d' % k)], {})


def driven(case, sid, eid, cid, k, name='s'):
    """a terminal source (sine k) at coordinate cid"""
    return case.node(eid, cid).add('sources', name=name + str(sid), sourceType='TerminalSource', elemIds=[eid],
                                   magnitude=dict(type='sin', amplitude=nvar('amp%d' % k), frequency=nvar('freq%d' % k)))


def network(ctx, I, parts, calls):
    """parts: (line, bundle, side, [(node, conductor, connector)]); calls: (method, *arguments)"""
    d = {}
    for line, bd, side, conns in parts:
        d[line] = {'side': string(side), 'bundle': bd, 'connections': [[num(n), num(c), jsonval(cn)] for n, c, cn in conns]}
    nw = I.call_value(ctx.cls(I, 'networks', 'Network'), [pyval(I, d)], {})
    for m, *args in calls:
        ctx.call(I, nw, m, *[num(a) if isinstance(a, int) else a for a in args])
    return nw


def tube(ctx, I, levels):
    return I.call_value(ctx.cls(I, 'networks', 'NetworkD'), [pyval(I, levels)], {})


def end_of(kind):
    return {'connectorType': kind}
