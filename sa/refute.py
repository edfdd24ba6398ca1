"""Separates two normal forms that were not found equal.

The normal forms are not complete (trigonometric or radical identities may be
missed), so before two terms that differ syntactically are reported as different
values, a valuation of their free atoms is looked for that satisfies the branch
facts and tells the two terms apart.  This evaluates terms of the abstract domain,
never code of the repository.
"""
import math
import random

from . import poly as PL
from .poly import Poly
from .engine import neg

CALC = {"sin", "cos", "sqrt", "abs", "inv", "wrap", "atan2", "floor", "trunc", "idiv", "exp", "log", "let",
        "pow", "inv0", "det", "minv", "round", "eval", "evec", "maxCoeff", "minCoeff", "sum", "csum", "bound",
        "fmod", "remainder", "asin", "acos", "atan", "tan", "sinh", "cosh", "tanh"}


WORK = [0]             # monomials evaluated so far
BUDGET = 1500000       # per search
TOTAL = 60000000       # per run


def tofloat(c):
    try:
        return float(c)
    except OverflowError:
        return math.inf if c > 0 else -math.inf


class Cannot(Exception):
    pass


_PLAIN = {}



def plain(x):
    """no term inside"""
    if isinstance(x, (tuple, list)):
        return all(plain(y) for y in x)
    return not isinstance(x, Poly) and not hasattr(x, "parts")


_SZ = {}


def size(x):
    """how much there is to evaluate in a condition or term"""
    k = id(x)
    r = _SZ.get(k)
    if r is not None and r[0] is x:
        return r[1]
    n = 1
    if isinstance(x, Poly):
        n = len(x.t) + sum(size(PL.atom_of(a)) for a in x.atoms() if PL.atom_of(a)[0] in CALC)
    elif isinstance(x, (tuple, list)):
        n = sum(size(y) for y in x)
    elif hasattr(x, "parts"):
        n = sum(size(y) for y in x.parts())
    _SZ[k] = (x, n)
    return n


_FL = {}


def floats(p):
    """the terms of p with their coefficients as floats"""
    k = id(p)
    r = _FL.get(k)
    if r is None or r[0] is not p:
        if len(_FL) > 200000:
            _FL.clear()
        r = _FL[k] = (p, [(tofloat(c), m) for m, c in p.t.items()])
    return r[1]


class Val:
    def __init__(self, rng, hints=None):
        self.rng = rng
        self.hints = hints or {}
        self.memo = {}
        self.truth = {}
        self.cm = {}           # values of computed terms
        self.bound = []
        self.scale = rng.choice([1, 1, 3, 3, 8])
        self.fine = rng.random() < 0.3
        self.flat = rng.random() < 0.04        # mostly zeros
        self.big = rng.random() < 0.06         # huge counts
        self.mag = 0.0
        self.mend = rng.random() < 0.3

    def key(self, i, a):
        """what identifies a free atom: its name, with the values of terms in it"""
        c = _PLAIN.get(i)
        if c is None:
            c = _PLAIN[i] = plain(a)
        return i if c else self.skey(a)

    def skey(self, x):
        if isinstance(x, Poly):
            return ("#", round(self.poly(x), 7))
        if isinstance(x, (tuple, list)):
            return tuple(self.skey(y) for y in x)
        if hasattr(x, "parts"):
            return (type(x).__name__,) + tuple(self.skey(y) for y in x.parts())
        return x

    def sample(self, integer, nonneg):
        r = self.rng
        if integer and self.big and r.random() < 0.5:
            return float(r.randint(1, 3000000000))
        if self.flat and not integer and r.random() < 0.8:
            return 0.0
        if integer:
            v = r.choice([0, 1, 2, r.randint(0, 6), r.randint(0, 6), r.randint(0, 20), -r.randint(0, 6)])
            return float(abs(v) if nonneg else v)
        if self.fine:
            v = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-1, 1)])
        else:
            v = r.uniform(-self.scale, self.scale)
        return abs(v) if nonneg else v

    def poly(self, p):
        s = mag = 0.0
        WORK[0] += len(p.t)
        for v, m in floats(p):
            for a, e in m:
                x = self.atom(a)
                if e < 0 and x == 0:
                    raise Cannot()
                v *= x ** e
            s += v
            if v > mag or -v > mag:
                mag = abs(v)
        if s != s or (1e24 if self.big else 1e12) < abs(s) < 1e290:
            raise Cannot()
        self.mag = mag
        return s

    def atom(self, i):
        a = PL.atom_of(i)
        k = a[0]
        if k in CALC:
            if not self.bound and i in self.cm:
                return self.cm[i]
            try:
                v = self.calc(a)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Cannot()
            if not self.bound:
                self.cm[i] = v
            return v
        key = self.key(i, a)
        v = self.memo.get(key)
        if v is None:
            v = None
            h = self.hints.get(i)
            if h and self.rng.random() < 0.7:
                v = self.near(h, i in PL._INT)
                if i in PL._NONNEG and v < 0:
                    v = None
            if v is None:
                v = self.sample(i in PL._INT, i in PL._NONNEG)
            self.memo[key] = v
        return v

    def near(self, h, integer):
        """a value at, next to or between the values the conditions compare with"""
        r = self.rng
        a = r.choice(h)
        if len(h) > 1 and r.random() < 0.5:
            b = r.choice(h)
            v = r.uniform(min(a, b), max(a, b))
        else:
            v = a + r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1), r.uniform(-1, 1) * abs(a), r.uniform(-self.scale, self.scale), 0.01, -0.01])
        return float(round(v)) if integer else v

    def calc(self, a):
        k = a[0]
        if k in ("minv", "det"):
            m = a[1]
            n = m.r
            M = [[self.poly(m.at(i, j)) for j in range(n)] for i in range(n)]
            if k == "det":
                return det(M)
            d = det(M)
            if abs(d) < 1e-9:
                raise Cannot()
            i, j = a[2], a[3]
            sub = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            return (-1) ** (i + j) * det(sub) / d
        if k == "bound":
            if not self.bound:
                raise Cannot()
            return self.bound[-1]
        if k in ("sum", "csum"):
            n = self.poly(a[1])
            if self.bound or n > 60 or n != int(n):
                raise Cannot()
            r = 0.0
            for i in range(int(n)):
                self.bound.append(float(i))
                try:
                    if k == "sum":
                        r += self.poly(a[2])
                    else:
                        for g, d in a[2]:
                            if all(self.holds(x) for x in g):
                                r += self.poly(d)
                                break
                finally:
                    self.bound.pop()
            return r
        if k in ("eval", "evec"):
            w, V = self.eigen(a[1])
            return w[a[2]] if k == "eval" else V[a[2]][a[3]]
        if k in ("maxCoeff", "minCoeff"):
            return (max if k == "maxCoeff" else min)(self.poly(x) for x in a[1])
        xs = [self.poly(x) for x in a[1:] if isinstance(x, Poly)]
        if k == "sin":
            return math.sin(xs[0])
        if k == "cos":
            return math.cos(xs[0])
        if k == "sqrt":
            return math.sqrt(xs[0])
        if k == "abs":
            return abs(xs[0])
        if k in ("inv", "inv0"):
            if abs(xs[0]) < 1e-9:
                raise Cannot()
            return 1 / xs[0]
        if k == "wrap":
            return math.atan2(math.sin(xs[0]), math.cos(xs[0]))
        if k == "atan2":
            return math.atan2(xs[0], xs[1])
        if k == "floor":
            return float(math.floor(xs[0]))
        if k == "round":
            return float(math.floor(xs[0] + 0.5))
        if k == "trunc":
            return float(math.trunc(xs[0]))
        if k == "idiv":
            return float(math.trunc(xs[0] / xs[1]))
        if k == "exp":
            return math.exp(min(xs[0], 50))
        if k == "log":
            return math.log(xs[0])
        if k == "pow":
            return math.pow(xs[0], xs[1])
        if k == "let":
            return xs[0]
        if k == "fmod":
            return math.fmod(xs[0], xs[1])
        if k == "remainder":
            return math.remainder(xs[0], xs[1])
        if k in ("asin", "acos", "atan", "tan", "sinh", "cosh", "tanh"):
            return getattr(math, k)(xs[0])
        raise Cannot()

    def shift(self, q, d):
        """changes a free atom so that q grows by d"""
        for m, k in q.t.items():
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                a = PL.atom_of(i)
                if a[0] in CALC or i in PL._INT or i in PL._NONNEG or sum(1 for mm in q.t for b, _ in mm if b == i) != 1:
                    continue
                key = self.key(i, a)
                if key in self.memo:
                    self.memo[key] += d / tofloat(k)
                    self.cm = {}
                    return True
        return False

    def repair(self, c):
        """changes a free atom so that the inequality c holds"""
        if not isinstance(c, tuple) or len(c) != 3 or c[0] != "c" or c[2] not in ("<", "<="):
            return
        p = tame(c[1])
        d = -self.rng.choice([1e-3, 4e-4, 0.1, 1.0, self.rng.uniform(0, 3)]) - self.poly(p)
        ms = [m for m in p.t if len(m) == 1 and m[0][1] == 1]
        self.rng.shuffle(ms)
        for m in ms:
            a = PL.atom_of(m[0][0])
            x = d / tofloat(p.t[m])
            if a[0] == "abs":
                q = self.poly(a[1])
                t = abs(q) + x
                if t < 0:
                    t = 0.0
                if self.shift(a[1], (t if q >= 0 else -t) - q):
                    return
            elif a[0] == "wrap":
                if self.shift(a[1], x):
                    return
            elif a[0] not in CALC and m[0][0] not in PL._INT:
                key = self.key(m[0][0], a)
                v = self.memo.get(key, 0.0) + x
                if m[0][0] in PL._NONNEG and v < 0:
                    continue
                self.memo[key] = v
                self.cm = {}
                return

    def eigen(self, m):
        """eigenvalues (ascending) and eigenvectors of the symmetric matrix a solver
        sees: the one given by the lower triangle of m"""
        n = m.r
        key = ("eigen",) + tuple(round(self.poly(m.at(i, j)), 9) for i in range(n) for j in range(i + 1))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = jacobi([[self.poly(m.at(max(i, j), min(i, j))) for j in range(n)] for i in range(n)])
        return r

    def holds(self, c, eps=1e-7):
        """does condition c hold (clearly)"""
        if c is True or c is False:
            return c
        if callable(c):
            return c(self)
        if c[0] == "t":
            key = self.skey(c[1])
            v = self.truth.get(key)
            if v is None:
                self.truth[key] = c[2]
                return True
            return v == c[2]
        p, op = tame(c[1]), c[2]
        v = self.poly(p)
        if self.mag > 1e4:
            eps = max(eps, 1e-10 * self.mag)
        if op == "==":
            if abs(v) < eps:
                return True
            # solve for a free atom occurring linearly
            for m, k in p.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    a = PL.atom_of(i)
                    if a[0] == "wrap" and len(p.t) <= 2 and self.shift(a[1], -v / tofloat(k)):
                        return abs(self.poly(p)) < eps
                    if a[0] in CALC or sum(1 for mm in p.t for b, _ in mm if b == i) != 1:
                        continue
                    key = self.key(i, a)
                    x = self.memo[key] - v / tofloat(k)
                    if i in PL._INT and abs(x - round(x)) > 1e-6:
                        continue
                    if i in PL._NONNEG and x < 0:
                        continue
                    self.memo[key] = float(round(x)) if i in PL._INT else x
                    self.cm = {}
                    return abs(self.poly(p)) < eps
            return False
        if op == "!=":
            return abs(v) > eps
        if op == "<=":
            return v <= eps if p.is_int() else v < eps
        return v < -eps


_TAME = {}


def tame(p):
    """p, scaled down when a coefficient is out of reach of floating point"""
    r = _TAME.get(id(p))
    if r is None or r[0] is not p:
        m = max((abs(k) for k in p.t.values()), default=0)
        r = _TAME[id(p)] = (p, p if m < 1 << 900 else p * (1 / m))
    return r[1]


def jacobi(A):
    n = len(A)
    A = [list(r) for r in A]
    V = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(i))
        if off < 1e-24 * (1 + sum(A[i][i] ** 2 for i in range(n))):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0.0:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = math.copysign(1.0, th) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = V[k][p], V[k][q]
                    V[k][p], V[k][q] = c * x - s * y, s * x + c * y
    o = sorted(range(n), key=lambda i: A[i][i])
    return [A[i][i] for i in o], [[V[k][i] for i in o] for k in range(n)]


def det(M):
    n = len(M)
    if n == 0:
        return 1.0
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** c * M[0][c] * det([r[:c] + r[c + 1:] for r in M[1:]]) for c in range(n) if M[0][c])


def loop_conds(evs):
    """when a loop ran N > 0 times its first and its last round were entered"""
    out = []
    for e in evs:
        if e["k"] != "loop" or e.get("exit") is not None:
            continue
        lid, I = e["a"][0], e["I"]
        N = Poly.atom(("trips", lid), True, True)
        i = PL.aid(I.as_atom()) if I.as_atom() else None
        if i is None:
            continue
        alts = []
        ok = True
        for s in e["subs"]:
            if s["kind"] not in ("fall", "cnt"):
                continue
            gs = s["guards"]
            if PL.mentions(tuple(gs), lambda a: isinstance(a, tuple) and a and a[0] in ("phi",)):
                ok = False
            alts.append(gs)
        if not ok or not alts:
            continue

        def cond(v, alts=alts, N=N, i=i):
            n = v.poly(N)
            if n < 0.5:
                return True
            for k in ((PL.ZERO, N - 1) if n > 1.5 else (PL.ZERO,)):
                if not any(all(v.holds(PL.sub_any(g, {i: k})) for g in gs) for gs in alts):
                    return False
            return True
        out.append(cond)
    return out


def thresholds(conds):
    """for the free atoms of simple conditions, the values they are compared with"""
    out = {}

    def one(p, t):
        """p == t, solved for the only atom in it"""
        ms = [(m, c) for m, c in p.t.items() if m]
        if len(ms) != 1 or len(ms[0][0]) != 1:
            return
        (i, e), = ms[0][0]
        c = tofloat(ms[0][1])
        k = tofloat(p.t.get((), 0))
        if not c or abs(k) > 1e15 or abs(c) > 1e15:
            return
        v = (t - k) / c
        if e == 2 and v >= 0:
            vs = [math.sqrt(v), -math.sqrt(v)]
        elif e == 1:
            vs = [v]
        else:
            return
        a = PL.atom_of(i)
        for v in vs:
            if a[0] == "abs":
                one(a[1], v)
                one(a[1], -v)
            elif a[0] == "wrap":
                one(a[1], v)
            elif a[0] in ("floor", "trunc", "round"):
                one(a[1], v)
                one(a[1], v + 1)
            elif a[0] == "sqrt":
                one(a[1], v * v)
            elif a[0] not in CALC:
                out.setdefault(i, []).append(v)
    for c in conds:
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "c":
            one(tame(c[1]), 0.0)
    return out


def valuations(conds, tries=4000, seed=1, want=40):
    """valuations satisfying all the conditions"""
    rng = random.Random(seed)
    conds = [c for c in conds if c is not True]
    # equalities first so that solving for an atom does not break the others
    conds = sorted(conds, key=lambda c: (2, 0) if callable(c) else (0 if isinstance(c, tuple) and c[0] == "c" and c[2] == "==" else 1, size(c)))
    n = 0
    start = WORK[0]
    hints = thresholds(conds)
    for _ in range(tries):
        if WORK[0] - start > BUDGET or WORK[0] > TOTAL:
            return
        v = Val(rng, hints)
        try:
            ok = all(v.holds(c) for c in conds)
            if not ok and v.mend:
                for _ in range(3):
                    bad = [c for c in conds if not v.holds(c)]
                    if not bad:
                        ok = True
                        break
                    for c in bad:
                        v.repair(c)
            if ok and all(v.holds(c) for c in conds):
                yield v
                n += 1
                if n >= want:
                    return
        except Cannot:
            continue


def separable(a, b, conds=(), seed=1):
    """a valuation satisfying conds on which scalars a and b clearly differ"""
    for v in valuations(conds, seed=seed):
        try:
            x = v.poly(a)
            mag = v.mag
            y = v.poly(b)
            mag = max(mag, v.mag)
        except Cannot:
            continue
        if abs(x - y) > 1e-5 * (1 + abs(x) + abs(y)) + 1e-9 * mag:
            return v
    return None


def feasible(conds, seed=1):
    for v in valuations(conds, seed=seed, want=1):
        return v
    return None
