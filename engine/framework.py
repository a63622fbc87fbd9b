"""Obligations, verdicts, reports and evidence."""
import ast
import json
import os
import pickle
import select
import sys
import time
import traceback
from .harness import *
from .witness import witness

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
WORKERS = int(os.environ.get('VERIF_WORKERS', '6'))

# heads whose meaning the analysis interprets; anything else on the analysed side that the
# specification does not mention makes a difference undecided instead of a violation
KNOWN_HEADS = {'var', 'bv', 'str', 'none', 'rd', 'sum', 'matinv', 'call', 'fun', 'lt0', 'eq0', 'beq', 'exp', 'sqrt', 'sin', 'cos', 'tan',
               'abs', 'inv', 'J', 'vsum', 'minall', 'maxall', 'first', 'argmin', 'arr', 'append', 'real', 'imag', 'uninit', 'outofrange',
               'item', 'tuple', 'obj', 'len', 'new', 'accum', 'eig', 'divzero', 'cls', 'attr', 'key', 'integral', 'log', 'arctan', 'sign',
               'arccos', 'arcsin', 'listval', 'dictval', 'guarded', 'kw', 'range', 'floor', 'conj', 'mod', 'pi'}


class Missing(Exception):
    """A public anchor of the property is gone: nothing can be decided."""


def heads_of(*nodes):
    out = set()
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Lam):
            if x.key not in seen:
                seen.add(x.key)
                rec(x.body)
        elif isinstance(x, Poly):
            if x.key not in seen:
                seen.add(x.key)
                for a in x.atoms():
                    rec(a)
        elif isinstance(x, Atom):
            if x.key in seen:
                return
            seen.add(x.key)
            if x.head == 'ind':
                out.add('ind:' + str(x.args[0]))
            else:
                out.add(x.head)
            for y in x.args:
                rec(y)
    for n in nodes:
        rec(n)
    return out


def names_in(p):
    out = set()
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Lam):
            rec(x.body)
        elif isinstance(x, Poly):
            if x.key not in seen:
                seen.add(x.key)
                for a in x.atoms():
                    rec(a)
        elif isinstance(x, Atom) and x.key not in seen:
            seen.add(x.key)
            if x.head == 'rd' and x.args[0].atom is not None and x.args[0].atom.head == 'var':
                out.add(x.args[0].atom.args[0])
            for y in x.args:
                rec(y)
    rec(p)
    return out


def reference(I, src, name):
    """a specification written as a Python function, given meaning by the same abstract semantics"""
    mod = '<specification %d>' % (abs(hash(src)) % 10 ** 9)
    if mod not in I.modenv:
        env = I.modenv[mod] = {}
        I.pkg.asts[mod] = tree = ast.parse(src)
        I._module_body(tree.body, env, mod)
    return I.modenv[mod][name]


class Ob:
    def __init__(self, name, status, site=None, detail='', rule='', witness=None):
        self.name, self.status, self.site, self.detail, self.rule, self.witness = name, status, site, detail, rule, witness

    def plain(self):
        return (self.name, self.status, tuple(self.site) if self.site else None, self.detail, self.rule, None if self.witness is None else str(self.witness))


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.functions = set()
        self.t0 = time.time()
        self.known = load_known(pid)
        self.assumptions = []
        self.ncalls = 0
        self.jobs = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -------------------------------------------------- scenarios
    def interp(self, **kw):
        pkg = self.package()
        I = Interp(pkg, **kw)
        I.ctx = self
        return I

    _pkg = None

    def package(self):
        if Ctx._pkg is None:
            Ctx._pkg = Package(REPO_SRC)
        return Ctx._pkg

    def cls(self, I, mod, name):
        for m in ([mod] if mod in I.pkg.asts else []) + sorted(I.pkg.asts):
            c = I.find_class(m, name)
            if c is not None:
                return c
        raise Missing('class %s' % name)

    def fun(self, I, mod, name):
        for m in ([mod] if mod in I.pkg.asts else []) + sorted(I.pkg.asts):
            f = I.module_env(m).get(name)
            if isinstance(f, (Fn, Overloads)):
                return f
        raise Missing('function %s' % name)

    def method(self, I, obj, name):
        c = obj.cls
        if c is None or c.find(name) is None:
            raise Missing('method %s.%s' % (c.name if c else '?', name))
        return I.getattr(obj, name)

    def call(self, I, obj, name, *args, **kw):
        return I.call_value(self.method(I, obj, name), list(args), kw)

    def scenario(self, name, f, *args):
        """run one scenario; a failure of the analysis is an undecided obligation, not an alarm"""
        nf = len(FACTS)
        if WORKERS > 1:
            return self.spawn(name, f, args)
        if self.broken() >= 3:
            self.obs.append(Ob(name, 'undecided', None, 'not analysed: violations were already found'))
            return
        try:
            I = f(*args)
        except Missing:
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            del FACTS[nf:]
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.obs.append(Ob(name + '/analysis', 'undecided', None, 'analysis stopped: %s: %s\n%s' % (type(e).__name__, e, tb)))

    def spawn(self, name, f, args):
        """scenarios are independent: each one is analysed in a process of its own"""
        global WORKERS
        while len([j for j in self.jobs if j[3] is None]) >= WORKERS:
            self.reap()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                WORKERS = 1
                self.obs, self.functions, self.ncalls = [], set(), 0
                missing = None
                try:
                    self.scenario(name, f, *args)
                except Missing as e:
                    missing = str(e)
                data = pickle.dumps(([o.plain() for o in self.obs], self.functions, self.ncalls, missing))
                with os.fdopen(w, 'wb') as out:
                    out.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.jobs.append([name, pid, r, None, b''])

    def reap(self):
        """wait for output of some running scenario"""
        live = [j for j in self.jobs if j[3] is None]
        ready, _, _ = select.select([j[2] for j in live], [], [])
        for j in live:
            if j[2] in ready:
                d = os.read(j[2], 1 << 16)
                if d:
                    j[4] += d
                else:
                    os.close(j[2])
                    os.waitpid(j[1], 0)
                    j[3] = True

    def gather(self):
        while any(j[3] is None for j in self.jobs):
            self.reap()
        for name, _, _, _, data in self.jobs:
            if not data:
                self.obs.append(Ob(name + '/analysis', 'undecided', None, 'the analysis of this scenario ended without a result'))
                continue
            obs, fs, nc, missing = pickle.loads(data)
            if missing:
                raise Missing(missing)
            self.obs += [Ob(*o) for o in obs]
            self.functions |= fs
            self.ncalls += nc
        self.jobs = []

    def broken(self):
        return sum(1 for o in self.obs if o.status == 'violation')

    def finish(self, I):
        self.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
        self.ncalls += I.ncalls

    # -------------------------------------------------- obligations
    def site_of(self, I, key):
        s = I.state.w.get(key)
        return s

    def equal(self, I, name, got, want, rule='', site=None, known=None, taint_ok=0):
        """got and want denote the same value (under the current facts)"""
        self.functions |= {x for x in I.touched if not str(x[0]).startswith('<')}
        if self.broken() >= 4:
            self.obs.append(Ob(name, 'undecided', site, 'not analysed: violations were already found', rule))
            return None
        if not isinstance(got, Poly):
            got = I.to_term(got)
        if not isinstance(want, Poly):
            want = I.to_term(want)
        fs = list(FACTS)
        if self.proved(I, got, want, 4 if not self.broken() else 1.5, False):
            self.obs.append(Ob(name, 'ok', site, '', rule))
            return True
        if known is not None and known[0] in self.known and self.proved(I, got, known[1], 60, True):
            self.obs.append(Ob(name, 'known', site, self.known[known[0]], rule))
            return True
        w = self.distinguish(I, got, want, fs)
        if w[0] != 'differ' and self.proved(I, got, want, 3 if self.broken() else 40 if self.tier == 'quick' else 300, True):
            self.obs.append(Ob(name, 'ok', site, '', rule))
            return True
        return self.differ(I, name, got, want, w, rule, site)

    def proved(self, I, got, want, seconds, hard):
        """the normal forms agree in every region"""
        if got is want:
            return True
        ok = False
        with budget(seconds):
            if hard:
                got = unify(got, want)
            ok = not compare(got, want)
            if not ok and hard and I.defs:
                got, want = I.expand(got), I.expand(want)
                ok = not compare(got, want)
        return ok

    def distinguish(self, I, got, want, fs):
        try:
            return witness(got, want, fs, I.defs, seconds=30 if not self.broken() else 10)
        except RecursionError:
            return ('unknown', 'term too deep')

    def differ(self, I, name, got, want, w, rule, site):
        foreign = got.opaque - want.opaque
        hs = heads_of(got) - heads_of(want) - KNOWN_HEADS
        for d in self.definitions(I, got, want):
            foreign |= d.opaque - want.opaque
            hs |= heads_of(d) - KNOWN_HEADS
        detail = 'code:     %s\nrequired: %s' % (show(got, maxdepth=12)[:900], show(want, maxdepth=12)[:900])
        if I.tainted:
            self.obs.append(Ob(name, 'undecided', site, 'imprecise analysis: %s' % (I.tainted[:3],), rule))
        elif foreign:
            self.obs.append(Ob(name, 'undecided', site, 'unmodelled: %s' % (sorted(map(str, foreign)),), rule))
        elif hs:
            self.obs.append(Ob(name, 'undecided', site, 'unmodelled operations: %s' % sorted(hs), rule))
        elif w[0] == 'differ':
            self.obs.append(Ob(name, 'violation', site, detail, rule, 'symbols %s: code gives %s, required %s' % (w[1], fmt(w[2]), fmt(w[3]))))
            return False
        else:
            self.obs.append(Ob(name, 'undecided', site, 'forms differ but no distinguishing values were found (%s)\n%s' % (w[0:2], detail), rule))
        return None

    def definitions(self, I, got, want):
        """definitions of the named stores that the code's value refers to and the required value does not"""
        common = names_in(want)
        todo, seen, out = list(names_in(got) - common), set(), []
        while todo:
            n = todo.pop()
            if n in seen or n not in I.defs:
                continue
            seen.add(n)
            for k in (1, 2, 3):
                try:
                    d = I.defs[n][0](tuple(P(fresh('x')) for _ in range(k)))
                except Exception:
                    continue
                out.append(d)
                todo += list(names_in(d) - common)
                break
        return out

    def holds(self, name, cond, rule='', site=None, detail='', undecided=False):
        """a structural fact decided by the caller"""
        st = 'ok' if cond else ('undecided' if undecided else 'violation')
        self.obs.append(Ob(name, st, site, '' if cond else detail, rule))
        return cond

    def undecided(self, name, why, rule='', site=None):
        self.obs.append(Ob(name, 'undecided', site, why, rule))

    # -------------------------------------------------- verdict
    def close(self, floor, technique, rules):
        self.gather()
        viol = [o for o in self.obs if o.status == 'violation']
        und = [o for o in self.obs if o.status == 'undecided']
        ok = [o for o in self.obs if o.status == 'ok']
        known = [o for o in self.obs if o.status == 'known']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for o in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, o.detail))
        for o in und:
            print('UNDECIDED property=%s %s: %s' % (self.pid, o.name, o.detail.splitlines()[0][:300] if o.detail else ''))
            if os.environ.get('VERIF_DEBUG'):
                print(o.detail)
        rp = os.path.join(VERIF, 'evidence', '%s.violation.txt' % self.pid)
        if viol:
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('obligation: %s\nrule: %s\nsite: %s\n%s\nwitness: %s\n\n' % (o.name, o.rule, fmt_site(o.site), o.detail, o.witness))
            for o in viol:
                print('%s: %s\n    rule: %s\n    %s\n    witness: %s' % (fmt_site(o.site), o.name, o.rule, o.detail[:900], o.witness))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        elif os.path.exists(rp):
            os.remove(rp)
        wall = time.time() - self.t0
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': '%s Rules: %s Decided on the current source of /repo: %d obligations hold, %d violated, %d undecided, %d known findings; %d functions analysed (%s).' % (
                    technique, ' '.join(rules), len(ok), len(viol), len(und), len(known), len(self.functions), ', '.join(sorted('%s.%s' % x for x in self.functions)[:60])),
                'counts': {'obligations': len(self.obs), 'discharged': len(ok), 'violated': len(viol), 'undecided': len(und), 'known_findings': len(known),
                           'functions_analysed': len(self.functions), 'inlined_calls': self.ncalls},
            },
            'wall_s': round(wall, 3),
            'violations': len(viol),
        }
        ev['obligations'] = [{'name': o.name, 'status': o.status, 'site': fmt_site(o.site), 'rule': o.rule} for o in self.obs]
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        extra = os.path.join(VERIF, 'evidence', '%s.json' % self.pid)
        with open(extra, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d hold, %d violated, %d undecided, %d known (%d functions, %.1fs)' % (
            self.pid, len(self.obs), len(ok), len(viol), len(und), len(known), len(self.functions), wall))
        if viol:
            return 1
        if len(self.obs) < floor and not und:
            print('ANALYSIS-BROKEN property=%s: %d obligations generated, at least %d expected' % (self.pid, len(self.obs), floor))
            return 2
        return 0


def fmt(v):
    if isinstance(v, complex):
        return '%.6g' % v.real if abs(v.imag) < 1e-12 else '%.6g%+.6gj' % (v.real, v.imag)
    if isinstance(v, float):
        return '%.6g' % v
    return repr(v)[:120]


def fmt_site(s):
    if not s:
        return '-'
    return '%s.py:%s (%s)' % (s[0].replace('.', '/'), s[2], s[1])


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out[key.replace('key=', '')] = text
    return out
