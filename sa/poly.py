"""Normal forms for scalar values: Laurent polynomials over interned atoms.

The value domain of the dataflow analysis.  Two expressions that are equal as
polynomials (with sin^2 = 1 - cos^2, sqrt(p)^2 = p and exact division) get the
same normal form, so the way a formula is written does not matter.
"""
from fractions import Fraction as Q

_ATOMS = {}
_REV = []
_INT = set()      # atom ids with integer values
_NONNEG = set()   # atom ids known >= 0


def aid(atom, integer=False, nonneg=False):
    i = _ATOMS.get(atom)
    if i is None:
        i = len(_REV)
        _ATOMS[atom] = i
        _REV.append(atom)
    if integer:
        _INT.add(i)
    if nonneg:
        _NONNEG.add(i)
    return i


def atom_of(i):
    return _REV[i]


_ONE = Q(1)
LET_LIMIT = 4000


def named(p):
    l = p.t[p.lead()]
    q = p * Poly.const(1 / l)
    return Poly.atom(("let", q), False, nonneg(q)) * Poly.const(l)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        c = Q(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, integer=False, nonneg=False):
        return Poly({((aid(a, integer, nonneg), 1),): Q(1)})

    # -- basics
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Q(0))

    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        if len(self.t) * len(o.t) > LET_LIMIT and len(self.t) > 1 and len(o.t) > 1:
            # too big to multiply out: give the larger factor a name
            if len(self.t) >= len(o.t):
                return named(self) * o
            return self * named(o)
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c12 = c1 * c2
                for m, c in _mono_mul(m1, m2):
                    v = r.get(m, 0) + (c12 if c is _ONE else c * c12)
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def is_int(self):
        return all(c.denominator == 1 and all(a in _INT and e > 0 for a, e in m)
                   for m, c in self.t.items())

    def single(self):
        """(coef, monomial) when there is one term"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return _REV[s[1][0][0]]
        return None

    def lead(self):
        ms = [m for m in self.t if m]
        if not ms:
            return None
        return max(ms, key=_mkey)

    def __repr__(self):
        return show(self)


def _mkey(m):
    return (sum(abs(e) for _, e in m), m)


ZERO = Poly({})
ONE = Poly({(): Q(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def _special(a):
    k = _REV[a][0]
    return k in ("sin", "sqrt", "inv", "abs")


def _mono_mul(m1, m2):
    if not m1:
        return [(m2, _ONE)]
    if not m2:
        return [(m1, _ONE)]
    d = dict(m1)
    hot = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    for a, e in d.items():
        k = _REV[a][0]
        if (k == "sin" and e >= 2) or (k == "sqrt" and (e >= 2 or e <= -2)) or (k == "abs" and e % 2 == 0) or (k == "inv" and e < 0):
            hot = True
    m = tuple(sorted(d.items()))
    if not hot:
        return [(m, _ONE)]
    p = ONE
    rest = []
    for a, e in m:
        at = _REV[a]
        k = at[0]
        if k == "sin" and e >= 2:
            c = Poly.atom(("cos", at[1]))
            for _ in range(e // 2):
                p = p * (ONE - c * c)
            if e % 2:
                rest.append((a, 1))
        elif k == "sqrt" and (e >= 2 or e <= -2):
            n = int(e / 2)
            p = p * (at[1] ** n)
            if e - 2 * n:
                rest.append((a, e - 2 * n))
        elif k == "abs" and e % 2 == 0:
            p = p * (at[1] ** e)
        elif k == "inv" and e < 0:
            p = p * (at[1] ** (-e))
        else:
            rest.append((a, e))
    p = p * Poly({tuple(rest): Q(1)})
    return list(p.t.items())


def inv(p):
    if p.is_const():
        c = p.cval()
        if not c:
            return Poly.atom(("inv0",))
        return Poly.const(1 / c)
    s = p.single()
    if s:
        c, m = s
        r = Poly.const(1 / c)
        for a, e in m:
            at = _REV[a]
            if at[0] == "inv":
                r = r * at[1] ** e
            else:
                r = r * Poly({((a, -e),): Q(1)})
        return r
    # take out the common monomial and the leading coefficient
    com = None
    for m in p.t:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) for a, e in com.items() if a in d}
            # only positive common powers, or common negative
        com = {a: e for a, e in com.items() if e > 0}
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    fac = ONE
    for a, e in (com or {}).items():
        fac = fac * Poly({((a, e),): Q(1)})
    for a, e in neg.items():
        if _REV[a][0] in ("sqrt",):
            continue
        fac = fac * Poly({((a, e),): Q(1)})
    r = ONE
    if fac != ONE:
        fi = inv(fac)
        p = p * fi
        r = fi
        if len(p.t) == 1:
            return r * inv(p)
    l = p.t[p.lead()]
    p = p * Poly.const(1 / l)
    nn = nonneg(p)
    return r * Poly.const(1 / l) * Poly.atom(("inv", p), nonneg=nn)


def nonneg(p):
    """syntactically >= 0"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and a not in _NONNEG:
                return False
    return True


def clear_inv(p, lim=12):
    """multiply out the inv(...) atoms: p == 0 iff result == 0 (where defined)"""
    for _ in range(lim):
        best = None
        for a in p.atoms():
            if _REV[a][0] == "inv":
                best = a if best is None or a > best else best
        if best is None:
            break
        q = _REV[best][1]
        mx = max(dict(m).get(best, 0) for m in p.t)
        r = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(best, 0)
            r = r + Poly({tuple(sorted(d.items())): c}) * (q ** (mx - e))
        p = r
        if len(p.t) > 4000:
            return p
    return p


def is_zero(p):
    if not p.t:
        return True
    if p.is_const():
        return False
    q = clear_inv(p)
    if not q.t:
        return True
    # constants that come from float literals may differ in the last digits
    if all(abs(c) < Q(1, 10**9) for c in q.t.values()):
        big = max((abs(c) for c in p.t.values()), default=Q(0))
        if big <= 0 or big > Q(1, 10**9):
            pass
        return True
    return False


def equal(p, q):
    p, q = P(p), P(q)
    if p == q:
        return True
    if is_zero(p - q):
        return True
    # unify atoms of the same kind with equal arguments
    a1 = sorted(p.atoms() - q.atoms())
    a2 = sorted(q.atoms() - p.atoms())
    if not a1 or not a2 or len(a1) > 12 or len(a2) > 12:
        return False
    mp = {}
    for x in a1:
        for y in a2:
            if _same_atom(_REV[x], _REV[y]):
                mp[x] = y
                break
    if not mp:
        return False
    return is_zero(rename(p, mp) - q)


def _same_atom(x, y):
    if x == y:
        return True
    if not (isinstance(x, tuple) and isinstance(y, tuple)):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return equal(x, y)
        return False
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if not equal(a, b):
                return False
        elif isinstance(a, tuple) and isinstance(b, tuple):
            if not _same_atom(a, b):
                return False
        elif a != b:
            return False
    return True


def rename(p, mp):
    r = ZERO
    for m, c in p.t.items():
        q = Poly.const(c)
        for a, e in m:
            q = q * Poly({((mp.get(a, a), e),): Q(1)})
        r = r + q
    return r


def subst(p, mp, deep=True):
    """replace atom ids by polys; looks inside atom arguments when deep"""
    r = ZERO
    for m, c in p.t.items():
        q = Poly.const(c)
        for a, e in m:
            if a in mp:
                q = q * (mp[a] ** e)
            else:
                if deep:
                    q = q * (_subst_atom(a, mp) ** e)
                else:
                    q = q * Poly({((a, e),): Q(1)})
        r = r + q
    return r


def _touch(x, mp):
    if isinstance(x, Poly):
        return any(a in mp or _touch(_REV[a], mp) for a in x.atoms())
    if isinstance(x, tuple):
        return any(_touch(y, mp) for y in x)
    if hasattr(x, "parts"):
        return any(_touch(y, mp) for y in x.parts())
    return False


def _sub_any(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, mp) for y in x)
    if hasattr(x, "parts") and _touch(x, mp):
        return x.rebuild([_sub_any(y, mp) for y in x.parts()])
    return x


def _subst_atom(a, mp):
    at = _REV[a]
    if not _touch(at, mp):
        return Poly({((a, 1),): Q(1)})
    n = tuple(_sub_any(x, mp) for x in at)
    f = REBUILD.get(n[0])
    if f:
        return f(*n[1:])
    return Poly.atom(n, a in _INT, a in _NONNEG)


def sub_any(x, mp):
    return _sub_any(x, mp)


def mentions(x, pred, seen=None):
    """does any atom (deeply) satisfy pred(atom tuple)?"""
    if seen is None:
        seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if a not in seen:
                seen.add(a)
                if pred(_REV[a]) or mentions(_REV[a], pred, seen):
                    return True
        return False
    if isinstance(x, (tuple, list)):
        if x and isinstance(x[0], str) and isinstance(x, tuple) and pred(x):
            return True
        return any(mentions(y, pred, seen) for y in x)
    if hasattr(x, "parts"):
        k = ("id", id(x))
        if k in seen:
            return False
        seen.add(k)
        return any(mentions(y, pred, seen) for y in x.parts())
    return False


_VID = {}


def vid(v):
    """small stable number of a value, for ordering"""
    return _VID.setdefault(v, len(_VID))


# ---------------------------------------------------------------- functions

def sgn_norm(p):
    """(sign, p') with the leading coefficient of p' positive"""
    l = p.lead()
    if l is None:
        c = p.cval()
        return (-1, -p) if c < 0 else (1, p)
    return (-1, -p) if p.t[l] < 0 else (1, p)


def _angle_terms(p):
    """list of (int multiplicity, base poly)"""
    out = []
    for m, c in p.t.items():
        if m and c.denominator == 1 and abs(c) <= 4:
            out.append((int(c), Poly({m: Q(1)})))
        else:
            s = -1 if c < 0 else 1
            out.append((s, Poly({m: abs(c)})))
    out.sort(key=lambda x: sorted(x[1].t))
    return out


def _unwrap(p):
    r = ZERO
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and _REV[m[0][0]][0] == "wrap" and c.denominator == 1:
            r = r + _REV[m[0][0]][1] * c
        else:
            r = r + Poly({m: c})
    return r


def sincos(p):
    """normal forms of (sin p, cos p)"""
    for _ in range(4):
        q = _unwrap(p)
        if q == p:
            break
        p = q
    if p.is_const():
        c = p.cval()
        if c == 0:
            return ZERO, ONE
    a = p.as_atom()
    if a and a[0] == "atan2":
        y, x = a[1], a[2]
        r = sqrt(x * x + y * y)
        return y / r, x / r
    ts = _angle_terms(p)
    if len(ts) > 5 or sum(abs(k) for k, _ in ts) > 7:
        s, q = sgn_norm(p)
        return Poly.atom(("sin", q)) * s, Poly.atom(("cos", q))
    s, c = ZERO, ONE
    for k, b in ts:
        aa = b.as_atom()
        if aa and aa[0] == "atan2":
            y, x = aa[1], aa[2]
            r = sqrt(x * x + y * y)
            bs, bc = y / r, x / r
        else:
            bs, bc = Poly.atom(("sin", b)), Poly.atom(("cos", b))
        if k < 0:
            bs = -bs
        for _ in range(abs(k)):
            s, c = s * bc + c * bs, c * bc - s * bs
    return s, c


def sin(p):
    return sincos(P(p))[0]


def cos(p):
    return sincos(P(p))[1]


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = p.cval()
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Q(n, d))
    s = p.single()
    if s and s[0] > 0 and s[1] and all(e % 2 == 0 for _, e in s[1]):
        r = sqrt(Poly.const(s[0]))
        for a, e in s[1]:
            r = r * pabs(Poly({((a, 1),): Q(1)})) ** (e // 2)
        return r
    return Poly.atom(("sqrt", p), nonneg=True)


def pabs(p):
    p = P(p)
    if p.is_const():
        return Poly.const(abs(p.cval()))
    if nonneg(p):
        return p
    _, q = sgn_norm(p)
    if nonneg(q):
        return q
    return Poly.atom(("abs", q), integer=q.is_int(), nonneg=True)


def wrap(p):
    p = P(p)
    for _ in range(4):
        q = _unwrap(p)
        if q == p:
            break
        p = q
    if p.is_const() and p.cval() == 0:
        return ZERO
    a = p.as_atom()
    if a and a[0] == "atan2":
        return p
    return Poly.atom(("wrap", p))


def atan2(y, x):
    y, x = P(y), P(x)
    if y.is_const() and x.is_const() and y.cval() == 0 and x.cval() > 0:
        return ZERO
    bases = []
    for q in (y, x):
        for a in q.atoms():
            at = _REV[a]
            if at[0] in ("sin", "cos") and at[1] not in bases:
                bases.append(at[1])
    if 0 < len(bases) <= 4:
        import itertools
        bases.sort(key=lambda b: sorted(b.t))
        for ks in sorted(itertools.product((0, 1, -1, 2, -2), repeat=len(bases)),
                         key=lambda k: sum(map(abs, k))):
            if not any(ks):
                continue
            ang = ZERO
            for k, b in zip(ks, bases):
                ang = ang + b * k
            s, c = sincos(ang)
            if s == y and c == x:
                return wrap(ang)
            if len(bases) >= 3 and sum(map(abs, ks)) > 4:
                break
    return Poly.atom(("atan2", y, x))


def floor(p):
    p = P(p)
    if p.is_const():
        import math
        return Poly.const(math.floor(p.cval()))
    ip, fp = ZERO, ZERO
    for m, c in p.t.items():
        q = Poly({m: c})
        if q.is_int():
            ip = ip + q
        else:
            fp = fp + q
    # a rational constant: take out its integer part
    c = fp.t.get((), Q(0))
    import math
    k = math.floor(c)
    if k:
        ip = ip + k
        fp = fp - k
    if not fp.t:
        return ip
    if fp.is_const():
        return ip
    return ip + Poly.atom(("floor", fp), integer=True, nonneg=nonneg(fp))


def ceil(p):
    p = P(p)
    return -floor(-p)


def trunc(p):
    p = P(p)
    if p.is_int():
        return p
    if p.is_const():
        c = p.cval()
        import math
        return Poly.const(math.floor(c) if c >= 0 else -math.floor(-c))
    if nonneg(p):
        return floor(p)
    return Poly.atom(("trunc", p), integer=True)


def idiv(p, q):
    p, q = P(p), P(q)
    if q.is_const() and q.cval() == 1:
        return p
    if p.is_const() and q.is_const() and q.cval():
        a, b = p.cval(), q.cval()
        v = abs(a) // abs(b)
        return Poly.const(v if (a < 0) == (b < 0) or v == 0 else -v)
    # exact multiples come out
    if q.single():
        ex, rest = ZERO, ZERO
        for m, c in p.t.items():
            t = Poly({m: c}) / q
            if t.is_int():
                ex = ex + t
            else:
                rest = rest + Poly({m: c})
        if not rest.t:
            return ex
        if ex.t and nonneg(rest):
            return ex + idiv(rest, q)
    r = Poly.atom(("idiv", p, q), integer=True, nonneg=nonneg(p) and nonneg(q))
    return r


def imod(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.cval():
        a, b = int(p.cval()), int(q.cval())
        import math
        return Poly.const(int(math.fmod(a, b)))
    return p - q * idiv(p, q)


def func(name, *args):
    args = tuple(P(a) if not isinstance(a, (Poly, tuple)) else a for a in args)
    if name == "log" and args[0] == ONE:
        return ZERO
    if name == "exp" and args[0] == ZERO:
        return ONE
    if name in ("abs", "sqrt", "sin", "cos", "atan2", "inv", "wrap", "floor", "trunc", "idiv"):
        return REBUILD[name](*args)
    return Poly.atom((name,) + args, nonneg=name == "exp")


REBUILD = {
    "sin": lambda p: sin(p), "cos": lambda p: cos(p), "sqrt": sqrt, "abs": pabs,
    "inv": lambda p: inv(p), "wrap": wrap, "atan2": atan2, "floor": floor, "trunc": trunc,
    "idiv": idiv, "let": lambda p: named(p) if p.t else p,
}


# ---------------------------------------------------------------- printing

def show_atom(a):
    if isinstance(a, Poly):
        return show(a)
    if isinstance(a, tuple):
        if a and a[0] == "in" and len(a) >= 2:
            return show_path(a[1])
        if a and a[0] in ("sin", "cos", "sqrt", "abs", "floor", "trunc", "wrap", "exp", "log", "inv", "idiv", "atan2"):
            return a[0] + "(" + ", ".join(show_atom(x) for x in a[1:]) + ")"
        if a and a[0] == "it":
            return "i#%s" % (a[1],)
        if a and a[0] == "len":
            return "size(%s)" % show_path(a[1])
        return "<" + " ".join(show_atom(x) for x in a) + ">"
    return str(a)


def show_path(p):
    if not isinstance(p, tuple):
        return str(p)
    out = ""
    for i, x in enumerate(p):
        if isinstance(x, tuple) and x and x[0] == "[]":
            out += "[%s]" % show_atom(x[1])
        elif isinstance(x, tuple) and x and x[0] == "el":
            out += "(%s)" % ",".join(str(y) for y in x[1:])
        elif x == "*":
            out += "->"
        elif isinstance(x, tuple):
            out += ("." if out and not out.endswith("->") else "") + str(x[-1] if x[0] in ("L", "p") else show_atom(x))
        else:
            out += ("." if out and not out.endswith("->") else "") + str(x)
    return out


_SHOWN = {}


def show_id(a):
    s = _SHOWN.get(a)
    if s is None:
        s = show_atom(_REV[a])
        s = _SHOWN[a] = s if len(s) < 240 else s[:240] + "..."
    return s


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0]))[:12]:
        s = "*".join(show_id(a) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not s:
            cs = str(c) if c.denominator < 1000 else "%.9g" % float(c)
            out.append(cs)
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            cs = str(c) if c.denominator < 1000 else "%.9g" % float(c)
            out.append(cs + "*" + s)
    if len(p.t) > 12:
        out.append("...")
    r = " + ".join(out).replace("+ -", "- ")
    return r if len(r) < 400 else r[:400] + "..."
