"""Concrete run of a harness on the real code (real numpy, shapely), with given inputs.

  replay.py FILE          replays a counterexample file and says what happened
  replay.py --serve       jobs on stdin, results on stdout (used by the checks)
"""
import io
import os
import sys
import json
import math
import warnings
import contextlib
warnings.filterwarnings('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
import common


KNOWN = set()
_kf = os.path.join(os.path.dirname(HERE), 'known_findings.json')
if os.path.exists(_kf):
    KNOWN = {k['id'] for k in json.load(open(_kf))['findings']}


class AssumeFailed(BaseException):
    pass


class ProveFailed(BaseException):
    pass


class ConcE:
    symbolic = False

    def __init__(self, vals):
        self.strict = None
        self.v = vals['reals']
        self.c = vals['choices']
        self.proved = 0
        self.failed = None

    def real(self, name, lo=None, hi=None):
        if name not in self.v:
            raise AssumeFailed('no value for ' + name)
        x = np.float64(self.v[name])
        if lo is not None:
            x = max(x, np.float64(float(lo)))
        if hi is not None:
            x = min(x, np.float64(float(hi)))
        return x

    def integer(self, name, lo, hi):
        return int(round(float(self.real(name, lo, hi))))

    def vec(self, name, lo=None, hi=None):
        return np.array([self.real(name + '.x', lo, hi), self.real(name + '.y', lo, hi)])

    def array(self, x):
        return np.array(x, dtype=float)

    def const(self, x):
        return np.float64(float(x))

    def choice(self, name, n):
        if name not in self.c:
            raise AssumeFailed('no choice for ' + name)
        return self.c[name]

    def boolean(self, name):
        return bool(self.choice(name, 2))

    @staticmethod
    def _flat(xs):
        for x in xs:
            if isinstance(x, (list, tuple)):
                yield from ConcE._flat(x)
            else:
                yield x

    def And(self, *xs):
        return all(bool(x) for x in self._flat(xs))

    def Or(self, *xs):
        return any(bool(x) for x in self._flat(xs))

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def close(self, a, b, tol=1e-6):
        return bool(abs(a - b) <= tol)

    def vclose(self, a, b, tol=1e-6):
        return all(self.close(p, q, tol) for p, q in zip(list(a), list(b)))

    def is_true(self, c):
        return bool(c)

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed('assumption')

    def prove(self, c, label, known=None):
        if known and known[0] in KNOWN and known[0] != self.strict and bool(known[1]):
            return
        if not bool(c):
            raise ProveFailed(label)
        self.proved += 1

    def fail(self, label):
        raise ProveFailed(label)

    def reach(self, label='end'):
        pass

    def note(self, *a):
        pass

    def draws(self, limit):
        pass

    def bearing(self, p):
        r = float(np.hypot(p[0], p[1]))
        return (float(np.arctan2(p[1], p[0])), r) if r > 1e-9 else None

    def turn(self, a, b):
        t = (b - a) % (2 * np.pi)
        return 0. if t > 2 * np.pi - 1e-9 else t

    def raises(self, fn, *exc):
        try:
            fn()
        except exc:
            return True
        return False


class Feed:
    """np.random fed with the recorded values"""

    def __init__(self, vals):
        self.q = list(vals)

    def pop(self):
        if not self.q:
            raise AssumeFailed('random values exhausted')
        return self.q.pop(0)

    def many(self, size):
        if size is None or size == ():
            return self.pop()
        n = int(np.prod(size))
        return np.array([self.pop() for _ in range(n)]).reshape(size)

    def install(self):
        r = np.random
        r.rand = lambda *s: self.many(s)
        r.random = r.random_sample = lambda size=None: self.many(size)
        r.uniform = lambda low=0., high=1., size=None: self.many(size)
        r.normal = lambda loc=0., scale=1., size=None: self.many(size)
        r.randn = lambda *s: self.many(s)
        r.randint = lambda low, high=None, size=None, **k: self.many(size)

        def shuffle(x):
            for i in range(len(x) - 1, 0, -1):
                j = int(self.pop())
                x[i], x[j] = x[j], x[i]
        r.shuffle = shuffle
        r.choice = lambda a, *x, **k: (list(range(a)) if isinstance(a, int) else list(a))[int(self.pop())]


def run(job, R, H):
    h = H[job['harness']]
    E = ConcE(job['values'])
    E.strict = job.get('known')
    R.Obstacle.id_counter = 0
    saved = {n: getattr(np.random, n) for n in ('rand', 'random', 'random_sample', 'uniform', 'normal', 'randn', 'randint',
                                                'shuffle', 'choice')}
    Feed(job['values'].get('rands', [])).install()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h.fn(E, R, **dict(h.params[job['tag']]))
    except AssumeFailed as e:
        return {'status': 'assume', 'detail': str(e)}
    except ProveFailed as e:
        return {'status': 'fail', 'label': str(e), 'detail': 'assertion fails on the real code'}
    except RecursionError as e:
        return {'status': 'fail', 'label': 'exception:RecursionError', 'detail': str(e)[:200]}
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(common.REPO + '/')]
        d = '%s: %s at %s' % (type(e).__name__, str(e)[:200],
                              ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4]))
        if not inrepo:
            return {'status': 'error', 'detail': d}
        return {'status': 'fail', 'label': 'exception:' + type(e).__name__, 'detail': d}
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
    return {'status': 'ok', 'proved': E.proved}


def main():
    out = sys.stdout
    with contextlib.redirect_stdout(io.StringIO()):
        import matplotlib.pyplot as plt
        plt.show = lambda *a, **k: None
        R = common.load_repo()
        H = common.load_harnesses()
    if sys.argv[1] == '--serve':
        for line in sys.stdin:
            try:
                res = run(json.loads(line), R, H)
            except BaseException as e:
                res = {'status': 'error', 'detail': repr(e)[:300]}
            out.write(json.dumps(res) + '\n')
            out.flush()
        return
    job = json.load(open(sys.argv[1]))
    print(json.dumps(run(job, R, H)))


if __name__ == '__main__':
    main()
