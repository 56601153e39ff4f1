"""Symbolic run of one harness: shims, exploration of all paths, replay of what is found."""
import io
import os
import sys
import json
import time
import math
import types
import subprocess
import contextlib
import tempfile
from fractions import Fraction
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
import z3
import core
from core import (Sym, SymBool, F, FALSE, TRUE, f_and, f_or, to_f, Unsupported, PathAbandon, BoundExceeded, Undefined,
                  And, Or, Not, Implies, Iff)
import poly as P
from poly import Poly
import symnp
import symshapely
import angle
import common

CONCRETE_PY = '/opt/venv/bin/python'
KNOWN = {}
if os.path.exists(os.path.join(os.path.dirname(HERE), 'known_findings.json')):
    KNOWN = {k['id']: k for k in json.load(open(os.path.join(os.path.dirname(HERE), 'known_findings.json')))['findings']}
_R = None
FUNCS = set()


def install():
    global _R
    if _R is not None:
        return _R
    common.load_harnesses()
    saved = {}
    mods = {'numpy': symnp.make(), 'math': symnp.make_math()}
    mods['numpy.linalg'] = mods['numpy'].linalg
    mods['numpy.random'] = mods['numpy'].random
    mods.update(symshapely.make())

    class Drawn:
        """result of a plotting call: plots show things and change nothing"""

        def __call__(self, *a, **k):
            return self

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return self

        def __iter__(self):
            return iter((self, self))

        def __bool__(self):
            raise Unsupported('plotting')

    plt = types.ModuleType('matplotlib.pyplot')
    pat = types.ModuleType('matplotlib.patches')
    mpl = types.ModuleType('matplotlib')
    mpl.__path__ = []

    drawn = Drawn()

    class PltModule(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return drawn
    plt = PltModule('matplotlib.pyplot')
    pat = PltModule('matplotlib.patches')
    mpl.pyplot, mpl.patches = plt, pat
    sp = types.ModuleType('scipy')
    sp.__path__ = []
    sps = types.ModuleType('scipy.spatial')
    sps.ConvexHull = SymConvexHull
    sp.spatial = sps
    mods.update({'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.patches': pat, 'scipy': sp,
                 'scipy.spatial': sps})
    for k in list(sys.modules):
        for m in mods:
            if k == m or k.startswith(m + '.'):
                if k.split('.')[0] in ('numpy', 'math', 'shapely', 'matplotlib', 'scipy'):
                    saved[k] = sys.modules[k]
    for k in saved:
        if k.split('.')[0] in ('shapely', 'matplotlib', 'scipy') or k in mods:
            del sys.modules[k]
    sys.modules.update(mods)
    try:
        _R = common.load_repo()
    finally:
        for m in mods:
            sys.modules.pop(m, None)
        sys.modules.update(saved)
    _R.np = mods['numpy']
    for k, m in list(sys.modules.items()):
        if (getattr(m, '__file__', None) or '').startswith(common.REPO + '/'):
            m.__dict__.setdefault('isinstance', sym_isinstance)
    _R.shapely = mods['shapely']
    monitor()
    return _R


def sym_isinstance(x, cls):
    """isinstance as the code under test sees it: a symbolic integer is an int"""
    if type(x) is Sym and not x.den:
        vs = core.ENG.vars
        if all(c.denominator == 1 for c in x.num.t.values()) and all(vs[v].kind == 'int' for v in x.num.vars()) and x.num.vars():
            x = 0
    return isinstance(x, cls)


class SymConvexHull:
    """scipy.spatial.ConvexHull of 2-d points: indices of the extreme points, ccw."""

    def __init__(self, pts):
        pts = [tuple(map(Sym.of, p)) for p in pts]
        n = len(pts)
        # gift wrapping with exact forks
        s = 0
        for i in range(1, n):
            if pts[i][0] < pts[s][0] or (pts[i][0] == pts[s][0] and pts[i][1] < pts[s][1]):
                s = i
        out = [s]
        while True:
            p = out[-1]
            q = None
            for i in range(n):
                if symshapely.br(symshapely.same(pts[i], pts[p])):
                    continue
                if q is None:
                    q = i
                    continue
                d, e = symshapely.sub(pts[q], pts[p]), symshapely.sub(pts[i], pts[p])
                k = symshapely.crs(d, e)
                if k < 0 or (k == 0 and symshapely.dt(e, e) > symshapely.dt(d, d)):
                    q = i
            if q is None or q == s or symshapely.br(symshapely.same(pts[q], pts[s])):
                break
            out.append(q)
            if len(out) > n:
                raise Unsupported('convex hull did not close')
        self.vertices = np.array(out)


def monitor():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'symex')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(common.REPO + '/'):
            FUNCS.add(os.path.relpath(code.co_filename, common.REPO) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


class SymE:
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.eng = run.eng
        self.choices = {}
        self.labels = []
        self.rands = []
        self.notes = []
        self.limit = None

    # -- inputs
    def real(self, name, lo=None, hi=None):
        v = self.eng.new_var(name)
        s = Sym(Poly.var(v))
        self.eng.inputs.append((name, v))
        if lo is not None:
            self.eng.assume(s.cmp('>=', lo))
        if hi is not None:
            self.eng.assume(s.cmp('<=', hi))
        return s

    def integer(self, name, lo, hi):
        v = self.eng.new_var(name, 'int')
        s = Sym(Poly.var(v))
        self.eng.inputs.append((name, v))
        self.eng.assume(s.cmp('>=', lo))
        self.eng.assume(s.cmp('<=', hi))
        return s

    def vec(self, name, lo=None, hi=None):
        return symnp.array([self.real(name + '.x', lo, hi), self.real(name + '.y', lo, hi)], float)

    def array(self, x):
        return symnp.array(x, float)

    def const(self, x):
        return Sym.of(x)

    def choice(self, name, n):
        """0..n-1, all explored"""
        for i in range(n - 1):
            if self.eng.branch(F('b', ('%s=%d' % (name, i), True))):
                self.choices[name] = i
                return i
        self.choices[name] = n - 1
        return n - 1

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def rand(self, kind, a, b):
        i = len(self.rands)
        if kind == 'int':
            a, b = int(a), int(b)
            v = a + self.choice('rnd%d' % i, b - a) if b > a else a
            self.rands.append(('int', v))
            self._limit(i)
            return v
        v = self.eng.new_var('rnd%d' % i)
        s = Sym(Poly.var(v))
        if kind == 'normal':
            # any real
            s_val = s
        else:
            self.eng.assume(f_and([s.cmp('>=', a), s.cmp('<=', b)]))
            s_val = s
        self.rands.append(('var', v))
        self._limit(i)
        return s_val

    def _limit(self, i):
        if self.limit:
            for c in self.limit(i, [Sym(Poly.var(x)) if k == 'var' else x for k, x in self.rands]):
                self.assume(c)

    def draws(self, limit):
        """restricts the random source: conditions on draw i, given all draws so far"""
        self.limit = limit

    # -- logic
    And, Or, Not, Implies, Iff = map(staticmethod, (And, Or, Not, Implies, Iff))

    def close(self, a, b, tol=1e-6):
        a, b = Sym.of(a), Sym.of(b)
        d = a - b
        t = core.to_frac(tol)
        return SymBool(f_and([(t - d).cmp('>=', 0), (d + t).cmp('>=', 0)]))

    def vclose(self, a, b, tol=1e-6):
        return And(*[self.close(p, q, tol) for p, q in zip(list(a), list(b))])

    def is_true(self, c):
        """forks"""
        return bool(SymBool(to_f(c)))

    def assume(self, c):
        self.eng.assume(to_f(c))

    def prove(self, c, label, known=None):
        """known=(finding id, region): a listed finding; failures inside the region are reported as known."""
        f = to_f(c)
        if known and known[0] in KNOWN:
            reg = to_f(known[1])
            self.run.known(f, reg, label, known[0])
            f = f_or([f, reg])
        self.run.prove(f, label, self, None)

    def fail(self, label):
        self.run.prove(FALSE, label, self, None)

    def reach(self, label='end'):
        self.labels.append(label)

    def note(self, *a):
        pass

    def bearing(self, p):
        """(angle, radius) of a point r (cos a, sin a); None for the origin"""
        x, y = Sym.of(p[0]), Sym.of(p[1])
        if x.is_const() and y.is_const():
            if x.const() == 0 == y.const():
                return None
            return Sym.of(math.atan2(y.const(), x.const())), (x * x + y * y).sqrt()
        for vc, vs, a in self.eng.trig.values():
            c, s = Sym(Poly.var(vc)), Sym(Poly.var(vs))
            for sg in (1, -1):
                if not (x * s * sg - y * c).num.t:
                    return a * sg, x * c + y * s * sg
        raise Unsupported('bearing')

    def turn(self, a, b):
        """from bearing a to bearing b, counter-clockwise"""
        return b - a

    def raises(self, fn, *exc):
        try:
            fn()
        except exc:
            return True
        return False


def linear(f):
    if f.k == 'atom':
        return all(sum(e for _, e in m) <= 1 for m in f.a[0].t)
    return all(linear(g) for g in f.a) if f.k in ('and', 'or') else f.k in 'TF'


class Found(BaseException):
    pass


class Run:
    """Explores every path of one harness instance."""

    def __init__(self, h, tag, kwargs, tier, budget):
        self.h, self.tag, self.kw, self.tier = h, tag, kwargs, tier
        o = h.opts
        self.eng = core.Engine(max_decisions=o.get('max_decisions', 600), tmo=o.get('tmo', 5000),
                               budget=budget)
        core.set_engine(self.eng)
        self.violations = []
        self.errors = []
        self.notes = []
        self.witness_ok = 0
        self.witness_bad = 0
        self.paths_done = 0
        self.labels = {}
        self.unconfirmed = 0
        self.undefined = 0
        self.samples = []
        self.known_seen = {}
        self.nwit = o.get('witnesses', 3)
        self.tries = {}
        self.incidents = 0
        self.stuck = 0

    def describe(self):
        return self.h.prop + '/' + self.h.name + (':' + self.tag if self.tag else '')

    # -- models
    def model(self, fs):
        """Input values for a model of the path and fs, moved off the boundaries if possible."""
        # relevant values come from one full query
        for d in (Fraction(1, 200), Fraction(1, 10 ** 5), None):
            cons = self.eng.cons
            cs = [c if d is None else slack(c, d) for c in cons]
            gs = [g if d is None else slack(g, d) for g in fs]
            if any(c.k == 'F' for c in cs + gs):
                continue
            r, m = self.eng.check(cs + gs, want_model=True, tmo=max(self.eng.tmo, 5000) if d is None else 2500)
            if r == 'sat':
                yield d, self.values(m)

    def values(self, m):
        vals = {}
        full = {}
        for v, info in enumerate(self.eng.vars):
            full[v] = m.get(v, Fraction(0))
        over = {}
        for key, (vc, vs, y) in self.eng.trig.items():
            if len(y.num.t) == 1 and not y.den:
                (mono, c), = y.num.t.items()
                if len(mono) == 1 and mono[0][1] == 1:
                    over[mono[0][0]] = math.atan2(float(full[vs]), float(full[vc])) / float(c)
        for name, v in self.eng.inputs:
            if v in over:
                x = over[v]
                if x == 0.0 and full[v] != 0:
                    x = 2 * math.pi
                vals[name] = x
            else:
                vals[name] = float(full[v])
        out = {'reals': vals, 'choices': dict(self.E.choices),
               'rands': [x if k == 'int' else float(full[x]) for k, x in self.E.rands]}
        return out

    def replay(self, vals, known=None):
        job = {'harness': self.h.prop + '/' + self.h.name, 'tag': self.tag, 'values': vals, 'known': known}
        return replay_job(job)

    def save_replay(self, vals, label, detail):
        d = os.path.join(os.path.dirname(HERE), 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s_%s_%s.json' % (self.h.prop, self.h.name, self.tag or 'main'))
        with open(fn, 'w') as f:
            json.dump({'harness': self.h.prop + '/' + self.h.name, 'tag': self.tag, 'values': vals, 'label': label,
                       'detail': detail, 'how': 'cd /verif && %s symex/replay.py %s' % (CONCRETE_PY, fn)}, f, indent=1)
        return fn

    def candidate(self, fs, label, kind):
        """A possible violation: fs is satisfiable with the path.  Replays it."""
        n = self.tries.get(label, 0)
        self.tries[label] = n + 1
        if n >= 4:
            return False
        got = False
        for d, vals in self.model(fs):
            got = True
            res = self.replay(vals)
            if res.get('status') == 'fail':
                fn = self.save_replay(vals, res['label'], res.get('detail', ''))
                self.violations.append((label, fn, res['label'], res.get('detail', ''), vals))
                return True
            self.last_replay = res
            if os.environ.get('SYMEX_MODEL'):
                print('MODEL', label, res.get('status'), vals, [str(f) for f in fs], len(self.eng.cons), [str(c) for c in self.eng.cons], file=sys.__stderr__)
        if not got:
            self.errors.append('%s: %s: solver gave no model for the candidate' % (self.describe(), label))
            return False
        return False

    # -- assertions
    def prove(self, f, label, E, known):
        eng = self.eng
        parts = f.a if f.k == 'and' else [f]
        replaying = len(eng.trace) < len(eng.prefix)
        if len(parts) >= 4 and not replaying and all(linear(g) for g in parts):
            # together first
            todo = [g for g in map(eng.simplify, parts) if not (g.k == 'T' or g.key() in eng.known)]
            if todo and eng.check(eng.cons, goal=f_and(todo).neg(), tmo=3000)[0] == 'unsat':
                eng.stats['proved'] += len(parts)
                for g in todo:
                    eng._learn(g)
                parts = []
        for g in parts:
            g = eng.simplify(g)
            if g.k == 'T' or g.key() in eng.known:
                if not replaying:
                    eng.stats['proved'] += 1
                continue
            if replaying:
                # already decided on the path this one branched from
                eng.assume(g) if g.k != 'F' else None
                if g.k == 'F':
                    raise PathAbandon()
                continue
            r, _ = eng.check(eng.cons, goal=g.neg(), tmo=self.h.opts.get('prove_tmo', 20000))
            if r == 'unsat':
                eng.stats['proved'] += 1
                eng._learn(g)
                continue
            if r == 'unknown':
                self.errors.append('%s: %s: solver unknown' % (self.describe(), label))
                if self.beyond('solver unknown'):
                    raise Found()
                eng.assume(g)
                continue
            if self.candidate([g.neg()], label, 'assert'):
                raise Found()
            if eng.trig:
                # the sine and cosine of an angle were taken as any point of the unit circle
                facts = self.trig_facts()
                r, _ = eng.check(eng.cons + facts, goal=g.neg(), tmo=self.h.opts.get('prove_tmo', 20000))
                if r == 'unsat':
                    eng.stats['proved'] += 1
                    eng._learn(g)
                    continue
                self.tries[label] = 0
                if r == 'sat' and self.candidate([g.neg()] + facts, label, 'assert'):
                    raise Found()
            self.unconfirmed += 1
            self.errors.append('%s: %s: counterexample does not reproduce on the real code (%s)' %
                               (self.describe(), label, getattr(self, 'last_replay', {}).get('status')))
            eng.assume(g)
        E.labels.append(label)

    def trig_facts(self):
        """what holds for sine and cosine of the angles of this path beyond lying on the unit circle"""
        out = []
        h = math.pi / 2
        for vc, vs, y in self.eng.trig.values():
            c, s = Sym(Poly.var(vc)), Sym(Poly.var(vs))
            out += [(y * y - s * s).cmp('>=', 0), (c - 1 + y * y * Fraction(1, 2)).cmp('>=', 0)]
            big = f_or([(y - 1).cmp('>', 0), (y + 1).cmp('<', 0)])
            out += [f_or([big, (s * y).cmp('>=', 0)]), f_or([big, (s * s - y * y * Fraction(1, 2)).cmp('>=', 0)]),
                    f_or([big, (c - 1 + y * y * Fraction(9, 20)).cmp('<=', 0)])]
            for k in range(-4, 4):
                away = f_or([(y - (k * h + 1e-9)).cmp('<', 0), (y - ((k + 1) * h - 1e-9)).cmp('>', 0)])
                out += [f_or([away, c.cmp('>=' if k % 4 in (0, 3) else '<=', 0)]), f_or([away, s.cmp('>=' if k % 4 in (0, 1) else '<=', 0)])]
        return out

    def known(self, f, reg, label, fid):
        eng = self.eng
        if fid in self.known_seen or len(eng.trace) < len(eng.prefix):
            return
        bad = f_and([f.neg(), reg])
        r, _ = eng.check(eng.cons, goal=bad)
        if r == 'unsat':
            return
        for d, vals in self.model([bad]):
            if self.replay(vals, fid).get('status') == 'fail':
                self.known_seen[fid] = label
                return

    # -- exploration
    def explore(self):
        eng = self.eng
        stack = [[]]
        R = install()
        t0 = time.time()
        try:
            while stack:
                prefix = stack.pop()
                eng.reset()
                eng.prefix = prefix
                eng.stack = []
                E = SymE(self)
                self.E = E
                symnp.RAND = E.rand
                reset_repo(R)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        try:
                            self.h.fn(E, R, **self.kw)
                        except PathAbandon:
                            eng.stats['abandoned'] += 1
                            continue
                        except Found:
                            return
                        except Undefined as e:
                            self.undefined += 1
                            if self.candidate([], 'undefined:' + str(e), 'undefined'):
                                return
                            continue
                        except Exception as e:
                            if len(eng.trace) < len(eng.prefix):
                                self.errors.append('%s: %s raised while re-running a prefix' % (self.describe(), repr(e)[:200]))
                                continue
                            if self.candidate([], 'exception:' + type(e).__name__, 'exception'):
                                return
                            self.unconfirmed += 1
                            tb = e.__traceback__
                            where = ''
                            while tb is not None:
                                where = '%s:%d' % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
                                tb = tb.tb_next
                            self.errors.append('%s: exception %s at %s not reproduced on the real code (%s)' % (
                                self.describe(), repr(e)[:200], where, getattr(self, 'last_replay', None)))
                            if self.beyond(repr(e)[:60]):
                                return
                            continue
                        except (Unsupported, BoundExceeded, P.TooBig) as e:
                            self.unsupported(e)
                            if len(eng.trace) < len(eng.prefix) or self.beyond(repr(e)[:60]):
                                return
                            if len(self.errors) > 4:
                                return
                            continue
                finally:
                    stack.extend(eng.stack)
                eng.stats['paths'] += 1
                self.paths_done += 1
                for l in E.labels:
                    self.labels[l] = self.labels.get(l, 0) + 1
                if self.paths_done <= 40 and self.witness_ok + self.witness_bad < self.nwit:
                    self.witness()
                    if self.violations:
                        return
                if len(self.errors) > 8:
                    self.errors.append('%s: stopped after too many errors' % self.describe())
                    return
        except (Unsupported, BoundExceeded, P.TooBig) as e:
            self.unsupported(e)

    def unsupported(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        w = [f for f in tb if f.filename.startswith(common.REPO) or '/harness/' in f.filename]
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in w[::-1][:4])
        self.errors.append('%s: %s: %s at %s' % (self.describe(), type(e).__name__, e, where))

    def beyond(self, why):
        """The code of this path left what can be encoded, so the check cannot pass any more.  Before giving no answer,
        solver-chosen inputs from all over the path are run on the real code; only a failed assertion of it counts."""
        if self.stuck >= 6:
            return False
        self.stuck += 1
        for vals in self.spread():
            res = self.replay(vals)
            if res.get('status') == 'fail' and self.stable_fail(vals):
                fn = self.save_replay(vals, res['label'], res.get('detail', ''))
                self.violations.append(('not encodable (%s): %s' % (why, res['label']), fn, res['label'], res.get('detail', ''), vals))
                return True
        return False

    def spread(self, n=8):
        import random
        rnd = random.Random(5)
        eng = self.eng
        r, m = eng.check(list(eng.cons), want_model=True, tmo=5000)
        if r != 'sat':
            return
        base = {v: m.get(v, Fraction(0)) for _, v in eng.inputs}
        yield self.values(m)
        for k in range(n):
            fs = []
            for _, v in eng.inputs:
                d = core.to_frac(round(rnd.choice([0.03, 0.3, 1, 3]) * rnd.random(), 4))
                up, dn = (Sym(Poly.var(v)) - (base[v] + d)).cmp('>=', 0), (Sym(Poly.var(v)) - (base[v] - d)).cmp('<=', 0)
                for f in ((up, dn) if rnd.random() < 0.5 else (dn, up)):
                    if f.k == 'T' or f.k != 'F' and eng.check(eng.cons + fs + [f], tmo=2000)[0] == 'sat':
                        fs.append(f)
                        break
            r, m = eng.check(eng.cons + fs, want_model=True, tmo=3000)
            if r == 'sat':
                yield self.values(m)

    def witness(self):
        """The path's own inputs, run on the unmodified code with real numpy and shapely."""
        for d, vals in self.model([]):
            res = self.replay(vals)
            if res.get('status') == 'ok':
                self.witness_ok += 1
                if len(self.samples) < 3:
                    self.samples.append({'harness': self.describe(), 'path_decisions': len(self.eng.trace),
                                         'inputs': vals['reals'], 'choices': vals['choices'],
                                         'replayed_assertions': res.get('proved')})
                return
            if res.get('status') == 'fail' and d is not None and self.stable_fail(vals):
                fn = self.save_replay(vals, res['label'], res.get('detail', ''))
                self.violations.append(('witness:' + res['label'], fn, res['label'], res.get('detail', ''), vals))
                return
            self.notes.append('witness not usable: %s' % res)
        self.witness_bad += 1

    def stable_fail(self, vals):
        """A witness of a proved path fails on the real code: it counts unless the failure vanishes when the inputs
        move a little (rounding at a boundary the exact model has decided)."""
        import random
        rnd = random.Random(7)
        bad = 0
        for k in range(6):
            v = dict(vals, reals={n: x + rnd.uniform(-1e-4, 1e-4) for n, x in vals['reals'].items()},
                     rands=[x if isinstance(x, int) else x + rnd.uniform(-1e-5, 1e-5) for x in vals['rands']])
            r = self.replay(v)
            s = r.get('status')
            if s == 'ok':
                return False
            bad += s == 'fail'
            if r.get('label', '').startswith('does not terminate'):
                return True
        return bad > 0 or not vals['reals']

    def result(self):
        s = dict(self.eng.stats)
        s['unknown_branches'] = self.eng.unknown_branches
        return dict(name=self.describe(), stats=s, violations=self.violations, errors=self.errors,
                    witness_ok=self.witness_ok, paths=self.paths_done, labels=self.labels,
                    undefined=self.undefined, samples=self.samples, functions=sorted(FUNCS), notes=self.notes[:5],
                    unconfirmed=self.unconfirmed, known=self.known_seen)


def slack(f, d):
    if f.k == 'atom':
        p, r = f.a
        c = max(abs(x) for m, x in p.t.items() if m) if p.t else 1
        k = Poly.const(d * min(c, 10 ** 6))
        if r in ('>', '>='):
            return core.atom(p - k, '>=')
        if r == '!=':
            return f_or([core.atom(p - k, '>='), core.atom(-p - k, '>=')])
        return f
    if f.k == 'and':
        return f_and([slack(x, d) for x in f.a])
    if f.k == 'or':
        return f_or([slack(x, d) for x in f.a])
    return f


def reset_repo(R):
    R.Obstacle.id_counter = 0


_server = None


def replay_job(job):
    """Runs the harness concretely, in a process of its own, on the real code."""
    global _server
    for attempt in range(2):
        if _server is None or _server.poll() is not None:
            env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
            _server = subprocess.Popen([CONCRETE_PY, os.path.join(HERE, 'replay.py'), '--serve'], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        try:
            _server.stdin.write(json.dumps(job) + '\n')
            _server.stdin.flush()
            import select
            r, _, _ = select.select([_server.stdout], [], [], 60)
            if not r:
                _server.kill()
                _server = None
                return {'status': 'fail', 'label': 'does not terminate within 60 s'}
            line = _server.stdout.readline()
            return json.loads(line)
        except (BrokenPipeError, ValueError) as e:
            _server = None
    return {'status': 'error', 'detail': 'replay server failed'}


def run_one(args):
    key, tag, tier, budget = args
    install()
    h = common.HARNESSES[key]
    r = Run(h, tag, dict(h.params[tag]), tier, budget)
    t0 = time.time()
    r.explore()
    out = r.result()
    out['wall'] = time.time() - t0
    if _server is not None:
        _server.kill()
    return out
