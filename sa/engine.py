"""Abstract interpreter over the exported syntax trees.

Forward dataflow with trace partitioning: an abstract state maps access paths to
symbolic values (normal forms), together with the branch facts of the partition
(an interval per linear form, and null / membership / truth facts).  Branch facts
are only ever compared with each other syntactically or by interval bounds: there
is no solver and nothing is executed.  Loops are abstracted by havocking what the
body may modify and describing one generic iteration; induction variables and
additive accumulators are closed by recurrences.
"""
import itertools
from fractions import Fraction as Q

from . import poly as PL
from .poly import Poly, P
from .types import tinfo, strip, is_ref, targs
from .values import *
from .values import Uninit
from .facts import bare
from .evalx import EvalMixin


class Infeasible(Exception):
    pass


class TooMany(Exception):
    pass


class Ret(Exception):
    def __init__(self, v, L):
        self.v, self.L = v, L


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Thr(Exception):
    def __init__(self, t, L):
        self.t, self.L = t, L


INF = None


def neg(c):
    if c is True or c is False:
        return not c
    if c[0] == "t":
        return ("t", c[1], not c[2])
    p, op = c[1], c[2]
    if op == "<":
        return mkc(-p, "<=")
    if op == "<=":
        return mkc(-p, "<")
    if op == "==":
        return ("c", p, "!=")
    return ("c", p, "==")


def mkc(p, op):
    """normalised condition p op 0"""
    if p.is_const():
        v = p.cval()
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]
    for a in p.atoms():
        at = PL.atom_of(a)
        if at[0] == "find" and op in ("==", "!="):
            f = Poly.atom(at)
            if p == f - at[1].n or p == at[1].n - f:
                return ("t", ("has", at[1], at[2]), op == "!=")
    l = p.t[p.lead()]
    p = p * Poly.const(1 / abs(l))
    if op in ("==", "!=") and l < 0:
        p = -p
    if p.is_int() or all(all(a in PL._INT and e > 0 for a, e in m) for m in p.t):
        den = 1
        for c in p.t.values():
            den = den * c.denominator // __import__("math").gcd(den, c.denominator)
        q = p * den
        if op == "<":
            q = q + 1
            op = "<="
        g = 0
        for m, c in q.t.items():
            if m:
                g = __import__("math").gcd(g, int(c))
        if g > 1:
            c0 = q.cval()
            if op == "<=":
                k = -((-c0) // g)      # ceil(c0/g)
                q = (q - c0) * Poly.const(Q(1, g)) + k
            elif c0 % g == 0:
                q = q * Poly.const(Q(1, g))
            else:
                return op == "!="
        p = q
    return ("c", p, op)


PI = Q(3.141592653589793)


class Facts:
    """branch facts of one partition"""

    def __init__(self):
        self.iv = {}
        self.tr = {}
        self.lst = []
        self.le = []
        self.memo = {}

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.tr = dict(self.tr)
        f.lst = list(self.lst)
        f.le = list(self.le)
        return f

    # ---- intervals: (lo, lo_strict, hi, hi_strict, neq)
    def _atom(self, a):
        lo = ls = hi = hs = None
        at = PL.atom_of(a)
        if a in PL._NONNEG:
            lo = Q(0)
        if at[0] in ("sin", "cos"):
            lo, hi = Q(-1), Q(1)
        elif at[0] in ("wrap", "atan2"):
            lo, hi = -PI, PI
        elif at[0] in ("asin", "atan"):
            lo, hi = -PI / 2, PI / 2
        elif at[0] == "acos":
            lo, hi = Q(0), PI
        elif at[0] in ("fmod", "remainder") and at[2].is_const() and at[2].cval() > 0:
            y = at[2].cval()
            if at[0] == "remainder":
                lo, hi = -y / 2, y / 2
            else:
                l2, _, h2, _ = self.bounds(at[1])
                lo, ls = (Q(0), False) if l2 is not None and l2 >= 0 else (-y, True)
                hi, hs = (Q(0), False) if h2 is not None and h2 <= 0 else (y, True)
        x = self.iv.get(Poly({((a, 1),): Q(1)}))
        if x:
            lo, ls = _mx(lo, ls, x[0], x[1])
            hi, hs = _mn(hi, hs, x[2], x[3])
        if at[0] == "inv":
            l2, s2, h2, t2 = self.bounds(at[1])
            if l2 is not None and l2 > 0:
                hi, hs = _mn(hi, hs, 1 / l2, False)
            if (l2 is not None and (l2 > 0 or (l2 == 0))):
                lo, ls = _mx(lo, ls, Q(0), True)
        if at[0] == "floor":
            l2, s2, h2, t2 = self.bounds(at[1])
            import math
            if l2 is not None:
                lo, ls = _mx(lo, ls, Q(math.floor(l2)), False)
            if h2 is not None:
                hi, hs = _mn(hi, hs, Q(math.floor(h2)) if not (t2 and h2.denominator == 1) else Q(h2 - 1), False)
        if at[0] == "trunc":
            l2, s2, h2, t2 = self.bounds(at[1])
            import math
            if l2 is not None:
                v = math.floor(l2) if l2 >= 0 else -math.floor(-l2)
                lo, ls = _mx(lo, ls, Q(v), False)
            if h2 is not None:
                v = math.floor(h2) if h2 >= 0 else -math.floor(-h2)
                hi, hs = _mn(hi, hs, Q(v), False)
        return lo, bool(ls), hi, bool(hs)

    def _mono(self, m):
        lo, ls, hi, hs = Q(1), False, Q(1), False
        for a, e in m:
            al, als, ah, ahs = self._atom(a)
            if e < 0:
                # reciprocal
                if al is not None and (al > 0 or (al == 0)):
                    nl, nls = (Q(0), True) if ah is None else (1 / ah, ahs) if ah > 0 else (Q(0), True)
                    nh, nhs = (None, False) if al == 0 else (1 / al, als)
                    al, als, ah, ahs = nl, nls, nh, nhs
                else:
                    al = ah = None
                    als = ahs = False
                e = -e
            if e % 2 == 0:
                # square
                if al is not None and al >= 0:
                    al = al ** e
                    ah = None if ah is None else ah ** e
                elif al is not None and ah is not None:
                    mx = max(abs(al), abs(ah)) ** e
                    if ah <= 0:
                        al, als, ah, ahs = ah ** e, ahs, al ** e, als
                    else:
                        al, als, ah, ahs = Q(0), False, mx, False
                else:
                    al, als, ah, ahs = Q(0), False, None, False
            elif e > 1:
                al = None if al is None else al ** e
                ah = None if ah is None else ah ** e
            # multiply [lo,hi] * [al,ah]
            if lo is not None and lo >= 0 and al is not None and al >= 0:
                nl, nls = lo * al, (ls and al > 0) or (als and lo > 0) or (ls and als)
                if lo == 0 and ls and al > 0:
                    nls = True
                if hi is None or ah is None:
                    nh, nhs = (Q(0), False) if (hi == 0 or ah == 0) else (None, False)
                else:
                    nh, nhs = hi * ah, hs or ahs
                lo, ls, hi, hs = nl, nls, nh, nhs
            elif None not in (lo, hi, al, ah):
                v = [lo * al, lo * ah, hi * al, hi * ah]
                lo, ls, hi, hs = min(v), False, max(v), False
            else:
                lo2 = hi2 = None
                # sign knowledge only
                s1 = 1 if lo is not None and lo >= 0 else -1 if hi is not None and hi <= 0 else 0
                s2 = 1 if al is not None and al >= 0 else -1 if ah is not None and ah <= 0 else 0
                if s1 * s2 > 0:
                    lo2 = Q(0)
                elif s1 * s2 < 0:
                    hi2 = Q(0)
                lo, ls, hi, hs = lo2, False, hi2, False
        return lo, ls, hi, hs

    def bounds(self, p):
        """interval of a poly"""
        if p.is_const():
            c = p.cval()
            return c, False, c, False
        k = p
        r = self.memo.get(k)
        if r is not None:
            return r
        lo, ls, hi, hs = Q(0), False, Q(0), False
        for m, c in p.t.items():
            if not m:
                a = (c, False, c, False)
            else:
                a = self._mono(m)
                a = (_sc(a[0], c), a[1], _sc(a[2], c), a[3]) if c > 0 else (_sc(a[2], c), a[3], _sc(a[0], c), a[1])
            if lo is not None:
                lo = None if a[0] is None else lo + a[0]
                ls = ls or a[1]
            if hi is not None:
                hi = None if a[2] is None else hi + a[2]
                hs = hs or a[3]
        q, l, c = _lin(p)
        x = self.iv.get(q)
        if x:
            xl, xls, xh, xhs = x[0], x[1], x[2], x[3]
            if l < 0:
                xl, xls, xh, xhs = xh, xhs, xl, xls
            if xl is not None:
                lo, ls = _mx(lo, ls, xl * l + c, xls)
            if xh is not None:
                hi, hs = _mn(hi, hs, xh * l + c, xhs)
        self.memo[k] = (lo, ls, hi, hs)
        return lo, ls, hi, hs

    def ub(self, p, depth=2):
        """(upper bound, strict)"""
        mk = (p, depth)
        r = self.memo.get(mk)
        if r is None:
            r = self.memo[mk] = self._ub(p, depth)
        return r

    def _ub(self, p, depth):
        lo, ls, hi, hs = self.bounds(p)
        best = (hi, hs)
        if depth and len(self.le) <= 40:
            ms = [m for m in p.t if m]
            for g, st in self.le:
                for m in ms:
                    if m in g.t and (p.t[m] > 0) == (g.t[m] > 0):
                        lam = p.t[m] / g.t[m]
                        h, s = self.ub(p - g * lam, depth - 1)
                        if h is not None:
                            best = _mn(best[0], best[1], h, s or st)
                        break
        return best

    def scaled(self, p):
        """p divided by the factors common to all its terms that are known to be positive"""
        ms = iter(p.t)
        com = {a for a, e in next(ms) if e > 0}
        for m in ms:
            if not com:
                return None
            com &= {a for a, e in m if e > 0}
        out = None
        for a in com:
            lo, ls, hi, hs = self._atom(a)
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                out = (p if out is None else out) * Poly({((a, -1),): Q(1)})
        return out

    def decide(self, c):
        if c is True or c is False:
            return c
        if c[0] == "t":
            v = self.tr.get(c[1])
            if v is None:
                return None
            return v == c[2]
        p, op = c[1], c[2]
        if p.is_const():
            return mkc(p, op)
        r = self.scaled(p)
        if r is not None:
            return self.decide(mkc(r, op))
        if op in ("==", "!="):
            lo, ls, hi, hs = self.bounds(p)
            q, l, k = _lin(p)
            x = self.iv.get(q)
            if x and (-k / l) in x[4]:
                return op == "!="
            if lo is not None and lo == hi and not ls and not hs:
                return (lo == 0) == (op == "==")
            if (lo is not None and (lo > 0 or (lo == 0 and ls))) or (hi is not None and (hi < 0 or (hi == 0 and hs))):
                return op == "!="
            h, s = self.ub(p)
            h2, s2 = self.ub(-p)
            if (h is not None and (h < 0 or (h == 0 and s))) or (h2 is not None and (h2 < 0 or (h2 == 0 and s2))):
                return op == "!="
            if h == 0 and h2 == 0 and not s and not s2:
                return op == "=="
            return None
        h, s = self.ub(p)
        if h is not None:
            if h < 0 or (h == 0 and (op == "<=" or s)):
                return True
            if op == "<=" and (h < 1 or (h == 1 and s)) and p.is_int():
                return True
        h2, s2 = self.ub(-p)
        if h2 is not None:
            l = -h2
            if l > 0 or (l == 0 and (op == "<" or s2)):
                return False
        return None

    def assume(self, c, tag=None):
        d = self.decide(c)
        if d is False:
            raise Infeasible()
        if d is True:
            if c is not True:
                self.lst.append(c)
            return
        self.memo = {}
        self.lst.append(c)
        if c[0] == "t":
            self.tr[c[1]] = c[2]
            return
        p, op = c[1], c[2]
        r = self.scaled(p)
        if r is not None:
            c = mkc(r, op)
            self.lst.pop()
            self.assume(c)
            self.lst[-1] = ("c", p, op)
            return
        q, l, k = _lin(p)
        x = self.iv.get(q, (None, False, None, False, frozenset()))
        lo, ls, hi, hs, ne = x
        v = -k / l
        if op == "==":
            lo, ls, hi, hs = v, False, v, False
            self.le.append((p, False))
            self.le.append((-p, False))
        elif op == "!=":
            ne = ne | {v}
        else:
            st = op == "<"
            if l > 0:
                hi, hs = _mn(hi, hs, v, st)
            else:
                lo, ls = _mx(lo, ls, v, st)
            self.le.append((p, st))
        isint = q.is_int()
        blo, bls, bhi, bhs = self.bounds(q)
        changed = True
        while changed:
            changed = False
            el, els = _mx(lo, ls, blo, bls)
            eh, ehs = _mn(hi, hs, bhi, bhs)
            if el is not None and el in ne and not els:
                lo, ls = (el + 1, False) if isint else (el, True)
                changed = True
            if eh is not None and eh in ne and not ehs:
                hi, hs = (eh - 1, False) if isint else (eh, True)
                changed = True
            if el is not None and eh is not None and (el > eh or (el == eh and (els or ehs))):
                raise Infeasible()
        self.iv[q] = (lo, ls, hi, hs, ne)
        self.memo = {}
        # an equality with a plain atom also fixes that atom's interval
        if lo is not None and lo == hi:
            pass


def _sc(x, c):
    return None if x is None else x * c


def _mx(a, s, b, t):
    if a is None:
        return b, t
    if b is None:
        return a, s
    if a > b:
        return a, s
    if b > a:
        return b, t
    return a, s or t


def _mn(a, s, b, t):
    if a is None:
        return b, t
    if b is None:
        return a, s
    if a < b:
        return a, s
    if b < a:
        return b, t
    return a, s or t


def _lin(p):
    k = p.cval()
    q = p - k
    l = q.t[q.lead()]
    return q * Poly.const(1 / l), l, k


class State:
    def __init__(self):
        self.store = {}
        self.env = {}
        self.facts = Facts()
        self.ev = []
        self.cnt = {}
        self.notes = set()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.facts = self.facts.copy()
        s.ev = list(self.ev)
        s.cnt = dict(self.cnt)
        s.notes = set(self.notes)
        return s


class Oracle:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c


class Out:
    """one partition at the end of an analysed function"""

    def __init__(self, kind, val, st, L):
        self.kind, self.val, self.st, self.L = kind, val, st, L

    @property
    def facts(self):
        return self.st.facts

    def guards(self):
        return self.st.facts.lst


class Engine(EvalMixin):
    MAXPATHS = 3000
    MAXDEPTH = 9

    def __init__(self, prog, noinline=(), hooks=None, inline_only=None, virtual_self=None):
        self.prog = prog
        self.noinline = set(noinline)
        self.hooks = hooks or {}
        self.st = State()
        self.oracle = Oracle([])
        self.frames = [0]
        self.thisp = [None]
        self.callstack = []
        self.paths_run = 0
        self.stmts = 0
        self.funcs_seen = set()
        self.wlog = None
        self._wtypes = {}
        self.virtual_self = virtual_self
        self.lazy_err = False

    # ------------------------------------------------------------ control
    def count(self, k):
        n = self.st.cnt.get(k, 0)
        self.st.cnt[k] = n + 1
        return n

    def note(self, what):
        self.st.notes.add(what)

    def ev(self, kind, *a, **kw):
        e = dict(kw)
        e["k"] = kind
        e["a"] = a
        e["fn"] = self.callstack[-1] if self.callstack else None
        e["nf"] = len(self.st.facts.lst)
        self.st.ev.append(e)
        return e

    def branch(self, c):
        """decide a condition, splitting the partition when it is open"""
        d = self.st.facts.decide(c)
        if d is not None:
            if c is not True and c is not False:
                self.st.facts.lst.append(c if d else neg(c))
            return d
        ch = self.oracle.choose(2)
        if ch == 0:
            self.st.facts.assume(c)
            return True
        self.st.facts.assume(neg(c))
        return False

    def enumerate(self, thunk):
        """all partitions of thunk from the current state"""
        start = self.st
        saved = self.oracle
        frames, thisp, cs, wl = list(self.frames), list(self.thisp), list(self.callstack), self.wlog
        outs = []
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            self.paths_run += 1
            if n > self.MAXPATHS or self.paths_run > 40 * self.MAXPATHS:
                self.st, self.oracle = start, saved
                self.frames, self.thisp, self.callstack = frames, thisp, cs
                raise TooMany()
            self.st = start.copy()
            self.frames, self.thisp, self.callstack = list(frames), list(thisp), list(cs)
            self.oracle = Oracle(prefix)
            o = None
            try:
                v = thunk()
                o = Out("fall", v, self.st, 0)
            except Ret as r:
                o = Out("ret", r.v, self.st, r.L)
            except Brk:
                o = Out("brk", None, self.st, 0)
            except Cnt:
                o = Out("cnt", None, self.st, 0)
            except Thr as t:
                o = Out("thr", t.t, self.st, t.L)
            except Infeasible:
                o = None
            tr = self.oracle.trace
            for i in range(len(prefix), len(tr)):
                c, k = tr[i]
                for alt in range(c + 1, k):
                    stack.append([x for x, _ in tr[:i]] + [alt])
            if o is not None:
                outs.append(o)
        self.st, self.oracle, self.wlog = start, saved, wl
        self.frames, self.thisp, self.callstack = frames, thisp, cs
        return outs

    # ------------------------------------------------------------ store
    def initpath(self, path):
        """where the initial value of a path comes from"""
        st = self.st.store
        out = ()
        for i, x in enumerate(path):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "[]":
                hv = st.get(path[:i] + ("#hav",))
                if hv:
                    rest = tuple(path[i + 1:])
                    for suf, tag in reversed(hv):
                        if rest[:len(suf)] == suf:
                            out = (tag,) + out
                            break
                b = st.get(path[:i] + ("#base",))
                if b is not None:
                    out = b if isinstance(b, tuple) else (b,)
                    out = out + (x,)
                    continue
            out = out + (x,)
        return out

    def init_value(self, path, t):
        ti = tinfo(t)
        ip = self.initpath(path)
        if ip and ip[0] == ("zero",):
            return self.zero_value(t, path)
        if ti.k == "int" or strip(t) in self.prog.enums:
            return Poly.atom(("in", ip), True, ti.uns)
        if ti.k == "float":
            return Poly.atom(("in", ip))
        if ti.k == "bool":
            return Bool(("t", ("in", ip), True))
        if ti.k == "mat":
            integer = tinfo(ti.e).k == "int"
            return Mat(ti.r, ti.c, [Poly.atom(("in", ip + (("el", i, j),)), integer) for j in range(ti.c) for i in range(ti.r)])
        if ti.k in ("tf", "se2", "rot"):
            a = Poly.atom(("in", ip + ("angle",)))
            if ti.k == "rot" and ti.r == 2:
                return rot2(a)
            if ti.r == 3 and ti.k != "rot":
                return rigid2(Poly.atom(("in", ip + ("tx",))), Poly.atom(("in", ip + ("ty",))), a, ti.k)
            if ti.k == "tf":
                e = [[Poly.atom(("in", ip + (("el", i, j),))) for j in range(4)] for i in range(3)]
                return Mat.of(e + [[0, 0, 0, 1]], "tf")
            return Mat(3, 3, [Poly.atom(("in", ip + (("el", i, j),))) for j in range(3) for i in range(3)], "rot")
        if ti.k in ("ptr", "sptr"):
            return Ptr(ip + ("*",))
        if ti.k == "iter":
            return Iter(ip + ("*c",), Poly.atom(("in", ip + ("pos",)), True))
        return Opq("in", ip)

    def zero_value(self, t, path=None):
        ti = tinfo(t)
        if ti.k in ("int", "float") or strip(t) in self.prog.enums:
            return PL.ZERO
        if ti.k == "bool":
            return Bool(False)
        if ti.k in ("ptr", "sptr"):
            return Ptr(None)
        if ti.k == "mat":
            return zeros(ti.r, ti.c)
        if ti.k == "vec":
            return Vec(PL.ZERO, (("zero",),), ())
        return Opq("default", strip(t))

    def fields(self, t):
        """[(name, type)] of a record type, or None"""
        s = strip(t)
        ti = tinfo(s)
        if ti.k == "pair":
            return [("first", ti.e[0]), ("second", ti.e[1])]
        r = self.prog.recs.get(s)
        if r is None:
            return None
        fs = []
        for b in r["bases"]:
            bf = self.fields(b)
            if bf:
                fs += bf
        return fs + [(f["n"], f["t"]) for f in r["fields"]]

    def read(self, path, t, L=0):
        st = self.st.store
        v = st.get(path)
        if v is not None:
            return v
        ti = tinfo(t)
        if ti.k == "vec":
            n = st.get(path + ("#len",))
            if n is None:
                ip = self.initpath(path)
                n = Poly.atom(("len", ip), True, True)
            base = st.get(path + ("#base",))
            if base is None:
                base = self.initpath(path)
            ent = tuple(sorted(((k[len(path):], x) for k, x in st.items()
                                if len(k) > len(path) and k[:len(path)] == path and k[-1] not in ("#len", "#base", "#hav") or
                                (len(k) > len(path) + 1 and k[:len(path)] == path)),
                               key=lambda kv: PL.vid(kv[0])))
            return Vec(n, base, ent)
        fs = self.fields(t)
        if fs is not None:
            return Rec(strip(t), {n: self.read(path + (n,), ft, L) for n, ft in fs})
        if ti.k == "arr":
            return Opq("arr", path)
        return self.init_value(path, t)

    def drop(self, path):
        st = self.st.store
        n = len(path)
        for k in [k for k in st if len(k) > n and k[:n] == path]:
            del st[k]

    def write(self, path, v, t=None, L=0, quiet=False):
        st = self.st.store
        self.drop(path)
        st.pop(path, None)
        if self.wlog is not None:
            self.wlog.add(path)
        if t:
            self._wtypes[path] = t
        if isinstance(v, Rec):
            fs = dict(self.fields(t) or self.fields(v.t) or [])
            for n, x in v.f.items():
                self.write(path + (n,), x, fs.get(n), L, quiet=True)
            if not quiet:
                self.ev("w", path, v, L=L, t=t)
            return
        if isinstance(v, Vec):
            st[path + ("#len",)] = v.n
            st[path + ("#base",)] = v.base
            for k, x in v.ent:
                st[path + k] = x
        else:
            st[path] = v
        if not quiet:
            self.ev("w", path, v, L=L, t=t)

    def load(self, x, L=0):
        if isinstance(x, LP):
            v = self.read(x.path, x.t, L)
            if isinstance(v, Poly):
                a = v.as_atom()
                if a and a[0] == "uninit":
                    self.ev("uninit", a[1], L=L)
            return v
        if isinstance(x, LV):
            m = self.read(x.path, x.t, L)
            if not isinstance(m, Mat):
                return self.unk("view", L)
            if x.r == 0:
                e = m.e[x.idx[0]]
                a = e.as_atom()
                if a and a[0] == "uninit":
                    self.ev("uninit", a[1], L=L)
                return e
            return Mat(x.r, x.c, [m.e[i] for i in x.idx], x.kind)
        if isinstance(x, Comma):
            return self.load(x.lv)
        return x

    def unk(self, why, L=0, t=None):
        """an unknown value (poisons conclusions drawn from it)"""
        n = self.count("unk")
        self.note("%s@%s" % (why, L))
        if t is not None:
            return self.opaque(("unk", why, n), t)
        return Opq("unk", why, n)

    def opaque(self, k, t):
        """fresh symbolic value named k of type t"""
        ti = tinfo(t)
        if ti.k == "int" or strip(t) in self.prog.enums:
            return Poly.atom(k, True, ti.uns)
        if ti.k == "float":
            return Poly.atom(k)
        if ti.k == "bool":
            return Bool(("t", k, True))
        if ti.k == "mat":
            return Mat(ti.r, ti.c, [Poly.atom(k + (i, j)) for j in range(ti.c) for i in range(ti.r)])
        if ti.k in ("tf", "se2") and ti.r == 3:
            return rigid2(Poly.atom(k + ("tx",)), Poly.atom(k + ("ty",)), Poly.atom(k + ("angle",)), ti.k)
        if ti.k in ("ptr", "sptr"):
            return Ptr((k, "*"))
        if ti.k == "vec":
            return Vec(Poly.atom(("len", (k,)), True, True), (k,), ())
        if ti.k == "iter":
            return Iter((k,), Poly.atom(k + ("pos",), True))
        fs = self.fields(t)
        if fs is not None:
            return Rec(strip(t), {n: self.opaque(k + (n,), ft) for n, ft in fs})
        return Opq(*k)

    def uninit(self, path, t):
        """value of a variable declared without initialiser"""
        ti = tinfo(t)
        if ti.k in ("int", "float") or strip(t) in self.prog.enums:
            return Poly.atom(("uninit", path), ti.k == "int")
        if ti.k == "bool":
            return Bool(("t", ("uninit", path), True))
        if ti.k == "mat":
            return Mat(ti.r, ti.c, [Poly.atom(("uninit", path + (("el", i, j),))) for j in range(ti.c) for i in range(ti.r)])
        if ti.k == "tf":
            d = ti.r - 1
            return Mat(ti.r, ti.c, [Poly.atom(("uninit", path + (("el", i, j),))) if i < d else P(1 if j == d else 0)
                                    for j in range(ti.c) for i in range(ti.r)], "tf")
        if ti.k == "ptr":
            return Ptr((("uninit", path), "*"))
        if ti.k == "sptr":
            return Ptr(None)
        if ti.k == "vec":
            return Vec(PL.ZERO, (("zero",),), ())
        if ti.k == "se2":
            return Mat(3, 3, rigid2(0, 0, 0).e, "se2")
        return None

    def assign(self, lv, v, L=0):
        """store value v to lvalue"""
        if isinstance(lv, LP):
            ti = tinfo(lv.t)
            if ti.k in ("mat",) and isinstance(v, Mat):
                if (v.r, v.c) != (ti.r, ti.c) and v.r * v.c == ti.r * ti.c:
                    pass
                v = Mat(ti.r, ti.c, v.e) if v.r * v.c == ti.r * ti.c else self.unk("dims", L, lv.t)
            elif ti.k in ("tf", "se2", "rot") and isinstance(v, Mat):
                if (v.r, v.c) == (ti.r, ti.c):
                    v = Mat(v.r, v.c, v.e, ti.k)
                elif v.r == ti.r - 1:
                    v = embed(v, ti.k)
            self.write(lv.path, v, lv.t, L)
            return
        if isinstance(lv, LV):
            m = self.read(lv.path, lv.t, L)
            if not isinstance(m, Mat):
                self.note("view-assign")
                return
            e = list(m.e)
            if lv.r == 0:
                if isinstance(v, Mat) and v.r * v.c == 1:
                    v = v.e[0]
                if not isinstance(v, Poly):
                    v = self.scalar(v, L)
                e[lv.idx[0]] = v
            else:
                if not isinstance(v, Mat) or v.r * v.c != len(lv.idx):
                    v = self.unk("dims", L)
                    for i in lv.idx:
                        e[i] = Poly.atom(("unk", "dims", self.count("unk")))
                else:
                    for i, x in zip(lv.idx, v.e):
                        e[i] = x
            st = self.st.store
            self.drop(lv.path)
            st[lv.path] = Mat(m.r, m.c, e, m.kind)
            if self.wlog is not None:
                self.wlog.add(lv.path)
            self.ev("w", lv.path, st[lv.path], L=L, t=lv.t, idx=lv.idx)
            return
        if isinstance(lv, Comma):
            return self.assign(lv.lv, v, L)
        self.note("assign-to-rvalue@%s" % L)

    # ------------------------------------------------------------ scalars
    def scalar(self, v, L=0):
        if isinstance(v, (LP, LV, Comma)):
            v = self.load(v, L)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            if v.c is True:
                return PL.ONE
            if v.c is False:
                return PL.ZERO
            return PL.ONE if self.branch(v.c) else PL.ZERO
        if isinstance(v, Mat) and v.r * v.c == 1:
            return v.e[0]
        if isinstance(v, Iter):
            return v.pos
        if isinstance(v, Opq):
            return Poly.atom(("unkval", v))
        return Poly.atom(("unkval", self.count("unk")))

    def cond(self, v, L=0):
        v = self.load(v, L)
        if isinstance(v, Bool):
            return v.c
        if isinstance(v, Poly):
            return mkc(v, "!=")
        if isinstance(v, Ptr):
            return self.nonnull(v)
        if isinstance(v, Opq):
            return ("t", ("truthy", v), True)
        return ("t", ("truthy", Opq("unk", self.count("unk"))), True)

    def nonnull(self, p):
        if p.path is None:
            return False
        if p.sure:
            return True
        return ("t", ("null", p.path), False)

    def deref(self, v, t, L=0):
        v = self.load(v, L)
        if isinstance(v, Ptr):
            if v.path is None:
                self.ev("deref", None, L=L, sure=False, null=True)
                self.crashes.append((L, self.st.facts.copy()))
                raise Infeasible()
            sure = v.sure or self.st.facts.decide(("t", ("null", v.path), False)) is True
            null = self.st.facts.decide(("t", ("null", v.path), True)) is True
            self.ev("deref", v.path, L=L, sure=sure, null=null)
            if null:
                self.crashes.append((L, self.st.facts.copy()))
                raise Infeasible()
            return LP(v.path, t)
        if isinstance(v, Iter):
            self.ev("itderef", v, L=L)
            return LP(v.cont + (("[]", v.pos),), t)
        if isinstance(v, Opq):
            return LP((("deref", v),), t)
        return LP((("deref", self.count("unk")),), t)

    # ------------------------------------------------------------ functions
    def this(self):
        return self.thisp[-1]

    def run(self, f, this=("this",), args=None, pre=None):
        """analyse function f from a symbolic state: list of partitions"""
        self.crashes = []
        self.st = State()
        self.frames = [0]
        self.thisp = [None]
        self.callstack = []
        self.paths_run = 0

        def thunk():
            if pre:
                pre(self)
            vals = []
            for i, p in enumerate(f["ps"]):
                if args is not None and i < len(args) and args[i] is not None:
                    vals.append(args[i])
                else:
                    vals.append(LP((("p", p["n"] or "arg%d" % i),), strip(p["t"])))
            return self.call_body(f, Ptr(this, True), vals, top=True)
        outs = self.enumerate(thunk)
        res = []
        for o in outs:
            if o.kind == "fall":
                o.kind = "ret"
            res.append(o)
        return res

    def call_body(self, f, this, vals, top=False):
        """inline the body; returns the return value (lvalue for reference returns)"""
        self.funcs_seen.add(f["f"])
        if len(self.callstack) > self.MAXDEPTH:
            raise TooMany()
        fr = self.count("frame") + 1
        self.frames.append(fr)
        self.thisp.append(this)
        self.callstack.append(f["f"])
        try:
            for p, v in zip(f["ps"], vals):
                self.bind(p, v)
            if f.get("ctor"):
                self.ctor_inits(f, this.path)
            rref = is_ref(f["rt"])
            try:
                if "b" in f and f["b"]:
                    self.exec(f["b"])
                ret, RL, fell = None, 0, True
            except Ret as r:
                ret, RL, fell = r.v, r.L, False
            if fell and strip(f["rt"]) != "void" and not f.get("ctor") and not f.get("dtor"):
                self.ev("noreturn", f["f"], L=f["L"])
                ret = self.opaque(("noreturn", f["n"]), f["rt"])
            if top:
                if ret is None:
                    return None
                if rref:
                    self.st.notes.add
                    self.retlv = ret
                    r = ret
                    raise Ret((ret, self.load(ret)), RL)
                v = self.load(ret)
                if isinstance(v, Bool) and v.c not in (True, False):
                    v = Bool(self.branch(v.c))
                raise Ret(v, RL)
            if ret is None:
                return None
            if rref:
                return ret
            return self.load(ret)
        finally:
            self.frames.pop()
            self.thisp.pop()
            self.callstack.pop()

    def bind(self, p, v):
        k = (self.frames[-1], p["id"])
        t = p["t"]
        if is_ref(t):
            if not isinstance(v, (LP, LV)):
                path = (("L", self.frames[-1], p["id"], p["n"]),)
                self.write(path, v, strip(t), quiet=True)
                v = LP(path, strip(t))
            self.st.env[k] = v
            return
        v = self.load(v)
        path = (("L", self.frames[-1], p["id"], p["n"]),)
        lp = LP(path, strip(t))
        if isinstance(v, Fn):
            self.st.env[k] = v
            return
        v = self.coerce(v, t)
        self.write(path, v, strip(t), quiet=True)
        self.st.env[k] = lp

    def coerce(self, v, t):
        """implicit adaption of a value to the type it initialises"""
        ti = tinfo(t)
        if ti.k in ("int", "float") and not isinstance(v, Poly):
            return self.scalar(v)
        if isinstance(v, Mat):
            if ti.k == "mat" and v.r * v.c == ti.r * ti.c:
                return Mat(ti.r, ti.c, v.e)
            if ti.k == "mat" and (v.r, v.c) != (ti.r, ti.c):
                return self.unk("dims", 0, t)
            if ti.k in ("tf", "se2", "rot"):
                if (v.r, v.c) == (ti.r, ti.c):
                    return Mat(v.r, v.c, v.e, ti.k)
                if v.r == ti.r - 1 and v.c == v.r:
                    return embed(v, ti.k)
        if ti.k == "mat" and isinstance(v, Poly) and ti.r * ti.c == 1:
            return Mat(1, 1, [v])
        if ti.k == "bool" and not isinstance(v, Bool):
            return Bool(self.cond(v))
        return v

    def lookup(self, n):
        for fr in reversed(self.frames):
            v = self.st.env.get((fr, n["id"]))
            if v is not None:
                return v
        return None

    def ctor_inits(self, f, path):
        t = f["cls"]
        seen = set()
        if f.get("dflt") and (f.get("copy") or f.get("move")):
            src = self.lookup(f["ps"][0])
            self.write(path, self.load(src), t)
            return
        for i in f.get("inits") or []:
            if "m" in i:
                seen.add(i["m"])
                ft = dict(self.fields(t) or []).get(i["m"], "?")
                e = i.get("e")
                if e is None:
                    continue
                self.init_at(path + (i["m"],), ft, e)
            elif "base" in i or i.get("deleg"):
                e = i.get("e")
                if e and e.get("k") == "ctor":
                    callee = self.prog.funcs.get(e["f"])
                    if callee is not None and callee["f"] not in self.callstack:
                        vals = [self.eval(a) for a in e["a"]]
                        self.call_body(callee, Ptr(path, True), vals)
                    elif not e.get("dflt"):
                        self.ev("basector", e.get("q"), [self.load(self.eval(a)) for a in e["a"]], L=i.get("L", 0))
                    if "base" in i and self.prog.recs.get(i["base"]) is None:
                        self.after_base_ctor(path, i["base"])
        for n, ft in (self.fields(t) or []):
            if n in seen:
                continue
            ti = tinfo(ft)
            if path + (n,) in self.st.store:
                continue
            own = any(x["n"] == n for x in self.prog.recs[strip(t)]["fields"]) if strip(t) in self.prog.recs else True
            if not own:
                continue
            u = self.uninit(path + (n,), ft)
            if u is not None:
                self.write(path + (n,), u, ft, quiet=True)

    def after_base_ctor(self, path, base):
        pass

    def init_at(self, path, t, e, L=0):
        """initialise the object at path (declared type t) from expression e"""
        ti = tinfo(t)
        if is_ref(t):
            v = self.eval(e)
            self.st.store[path] = Opq("refto", v.path) if isinstance(v, LP) else Opq("ref", PL.vid(v) if not isinstance(v, LV) else 0)
            return
        if e.get("k") == "ctor" and ti.k in ("cls",) and self.fields(t) is not None:
            self.construct(path, t, e)
            return
        if e.get("k") in ("init",) and self.fields(t) is not None:
            for (n, ft), a in zip(self.fields(t), e["a"]):
                self.init_at(path + (n,), ft, a, L)
            return
        if e.get("k") == "ctor" and not e.get("a") and ti.k == "mat":
            self.write(path, self.uninit(path, t), t, L, quiet=True)
            return
        v = self.eval(e)
        v = self.take(v, t, L)
        self.write(path, self.coerce(v, t), t, L or e.get("L", 0))

    def take(self, v, t, L=0):
        """rvalue for initialising an object of type t; moves steal ownership"""
        ti = tinfo(t)
        if isinstance(v, LP) and v.x and ti.k in ("sptr", "vec"):
            r = self.load(v, L)
            if ti.k == "sptr":
                self.write(v.path, Ptr(None), v.t, L, quiet=True)
            else:
                self.write(v.path, Vec(PL.ZERO, (("zero",),), ()), v.t, L, quiet=True)
            return r
        return self.load(v, L)

    def construct(self, path, t, e):
        f = self.prog.funcs.get(e.get("f"))
        vals = [self.eval(a) for a in e["a"]]
        if e.get("ck") in ("copy", "move") and (f is None or f.get("dflt") or "b" not in f):
            self.write(path, self.load(vals[0]), t, e.get("L", 0))
            return
        if f is not None and f["f"] not in self.noinline:
            if f["f"] in self.callstack:
                raise TooMany()
            self.call_body(f, Ptr(path, True), vals)
            return
        # aggregate / implicit default construction
        fs = self.fields(t)
        if fs is not None and not vals:
            for n, ft in fs:
                u = self.uninit(path + (n,), ft)
                if u is not None:
                    self.write(path + (n,), u, ft, quiet=True)
                elif self.fields(ft) is not None:
                    self.construct(path + (n,), ft, {"f": None, "a": [], "L": e.get("L", 0)})
            return
        if fs is not None and len(vals) == 1:
            v = self.load(vals[0])
            if isinstance(v, Rec):
                self.write(path, v, t, e.get("L", 0))
                return
        self.write(path, Opq("ctor", e.get("q"), tuple(self.load(v) for v in vals)), t, e.get("L", 0))

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        self.stmts += 1
        k = s["k"]
        m = getattr(self, "s_" + {"{}": "block", "if": "if", "for": "for", "while": "while", "do": "do", "try": "try"}.get(k, k), None)
        if m is None:
            self.note("stmt %s@%s" % (k, s.get("L")))
            return
        return m(s)

    def s_block(self, s):
        for x in s["b"]:
            self.exec(x)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        v = self.eval(s["e"])
        if isinstance(v, LP):
            pass

    def s_decl(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        k = (self.frames[-1], d["id"])
        t = d["t"]
        path = (("L", self.frames[-1], d["id"], d["n"]),)
        L = d.get("L", 0)
        e = d.get("e")
        ti = tinfo(t)
        if is_ref(t) and e is not None:
            v = self.eval(e)
            if not isinstance(v, (LP, LV)):
                if isinstance(v, Fn):
                    self.st.env[k] = v
                    return
                self.write(path, self.load(v), strip(t), L, quiet=True)
                v = LP(path, strip(t))
            self.st.env[k] = v
            self.bindings(d, v, strip(t))
            return
        lp = LP(path, strip(t))
        self.st.env[k] = lp
        self.drop(path)
        if d.get("sl"):
            self.note("static-local")
        if e is None:
            u = self.uninit(path, t)
            if u is not None:
                self.st.store[path] = u
                if isinstance(u, Vec):
                    del self.st.store[path]
                    self.write(path, u, t, L, quiet=True)
            elif self.fields(t) is not None:
                self.construct(path, t, {"f": None, "a": [], "L": L})
            return
        if ti.k == "cls" and self.fields(t) is not None and e.get("k") in ("ctor", "init"):
            self.init_at(path, t, e, L)
            self.bindings(d, lp, strip(t))
            return
        if e.get("k") == "ctor" and not e.get("a") and ti.k in ("mat", "tf", "vec", "sptr", "ptr"):
            u = self.uninit(path, t)
            self.write(path, u, t, L, quiet=True)
            return
        v = self.eval(e)
        if isinstance(v, Fn):
            self.st.env[k] = v
            return
        if ti.k == "cls" and self.fields(t) is None and isinstance(v, (LP, LV)) and "Eigen::" in t:
            # auto x = view expression: an alias in Eigen
            self.st.env[k] = v
            return
        v = self.take(v, t, L)
        if isinstance(v, Mat) and ti.k not in ("mat", "tf", "rot", "se2"):
            self.st.env[k] = v        # expression template held by auto
            return
        if isinstance(v, Poly) and ti.k == "cls" and strip(t) not in self.prog.enums:
            self.st.env[k] = v
            return
        self.write(path, self.coerce(v, t), strip(t), L, quiet=True)
        self.bindings(d, lp, strip(t))

    def bindings(self, d, lv, t):
        b = d.get("bind")
        if not b:
            return
        fs = self.fields(t)
        for i, x in enumerate(b):
            if fs and i < len(fs) and isinstance(lv, LP):
                self.st.env[(self.frames[-1], x["id"])] = LP(lv.path + (fs[i][0],), strip(fs[i][1]))

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        if self.cbranch(s["c"]):
            self.exec(s["x"])
        else:
            self.exec(s["y"])

    def cbranch(self, e):
        """branch on an expression, short-circuit aware"""
        if e["k"] == "bin" and e["op"] == "&&":
            return self.cbranch(e["l"]) and self.cbranch(e["r"])
        if e["k"] == "bin" and e["op"] == "||":
            return self.cbranch(e["l"]) or self.cbranch(e["r"])
        if e["k"] == "un" and e["op"] == "!":
            return not self.cbranch(e["e"])
        if e["k"] == "conv" and e.get("ck") in ("IntegralToBoolean",) and e["e"]["k"] == "bin":
            return self.cbranch(e["e"])
        return self.branch(self.cond(self.eval(e), e.get("L", 0)))

    def s_ret(self, s):
        v = None
        if s.get("e") is not None:
            v = self.eval(s["e"])
            if not isinstance(v, (LP, LV)):
                v = self.load(v)
        raise Ret(v, s.get("L", 0))

    def s_break(self, s):
        raise Brk()

    def s_cont(self, s):
        raise Cnt()

    def s_switch(self, s):
        v = self.load(self.eval(s["c"]))
        body = s["b"]["b"] if s["b"]["k"] == "{}" else [s["b"]]
        # flatten labels
        items = []
        for x in body:
            while x and x["k"] in ("case", "default"):
                items.append(("label", x))
                x = x["b"]
            if x:
                items.append(("s", x))
        start = None
        dflt = None
        for i, (k, x) in enumerate(items):
            if k == "label":
                if x["k"] == "default":
                    dflt = i
                elif start is None:
                    if self.branch(self.compare("==", v, self.load(self.eval(x["e"])))):
                        start = i
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, x in items[start:]:
                if k == "s":
                    self.exec(x)
        except Brk:
            pass

    def s_case(self, s):
        self.exec(s["b"])

    s_default = s_case

    def s_try(self, s):
        self.note("try")
        self.exec(s["b"])

    def s_omp(self, s):
        self.ev("omp", s["d"], s.get("cl"), L=s.get("L", 0))
        self.exec(s["b"])

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        self.exec(s["i"])

        def cond():
            return True if s["c"] is None else self.cbranch(s["c"])

        def inc():
            if s["n"] is not None:
                self.eval(s["n"])
        self.loop("for", cond, lambda: self.exec(s["b"]), inc, s)

    def s_while(self, s):
        def cond():
            if s.get("cv"):
                self.declare(s["cv"])
            return self.cbranch(s["c"])
        self.loop("while", cond, lambda: self.exec(s["b"]), lambda: None, s)

    def s_do(self, s):
        # first round, then a while
        try:
            self.exec(s["b"])
        except Cnt:
            pass
        except Brk:
            return
        self.loop("while", lambda: self.cbranch(s["c"]), lambda: self.exec(s["b"]), lambda: None, s)

    def s_range(self, s):
        r = self.eval(s["r"])
        rv = self.load(r)
        v = s["v"]
        if isinstance(rv, Vec) and isinstance(r, LP):
            n = rv.n
            fr = self.frames[-1]
            ip = (("L", fr, v["id"], "#i"),)
            self.st.store[ip] = PL.ZERO
            et = tinfo(r.t).e or v["t"]

            def cond():
                return self.branch(mkc(self.st.store[ip] - self.read(r.path, r.t).n, "<"))

            def body():
                i = self.st.store[ip]
                el = LP(r.path + (("[]", i),), strip(et))
                k = (self.frames[-1], v["id"])
                if is_ref(v["t"]):
                    self.st.env[k] = el
                else:
                    path = (("L", self.frames[-1], v["id"], v["n"]),)
                    self.write(path, self.load(el), strip(v["t"]), quiet=True)
                    self.st.env[k] = LP(path, strip(v["t"]))
                    self.bindings(v, self.st.env[k], strip(v["t"]))
                self.exec(s["b"])

            def inc():
                self.st.store[ip] = self.st.store[ip] + 1
                if self.wlog is not None:
                    self.wlog.add(ip)
            return self.loop("range", cond, body, inc, s, over=r)
        if rv is not None:
            # user-defined range: begin() != end(), ++, *
            t = strip(s["rt"])
            fb = [f for f in self.prog.funcs.values() if f.get("cls") == t and f["n"] == "begin"]
            fe = [f for f in self.prog.funcs.values() if f.get("cls") == t and f["n"] == "end"]
            isconst = "const " in s["rt"]
            fb = [f for f in fb if bool(f.get("const")) == isconst] or fb
            fe = [f for f in fe if bool(f.get("const")) == isconst] or fe
            if fb and fe and isinstance(r, LP):
                b = self.load(self.call_body(fb[0], Ptr(r.path, True), []))
                e = self.load(self.call_body(fe[0], Ptr(r.path, True), []))
                if isinstance(b, Iter) and isinstance(e, Iter):
                    fr = self.frames[-1]
                    ip = (("L", fr, v["id"], "#i"),)
                    self.st.store[ip] = b.pos

                    def cond():
                        return self.branch(mkc(self.st.store[ip] - e.pos, "<"))

                    def body():
                        el = LP(b.cont + (("[]", self.st.store[ip]),), strip(v["t"]))
                        k = (self.frames[-1], v["id"])
                        self.st.env[k] = el
                        self.exec(s["b"])

                    def inc():
                        self.st.store[ip] = self.st.store[ip] + 1
                        if self.wlog is not None:
                            self.wlog.add(ip)
                    return self.loop("range", cond, body, inc, s, over=LP(b.cont, "?"))
        # unknown range
        self.note("range@%s" % s.get("L"))

        def cond2():
            return self.branch(("t", ("more", self.count("more")), True))

        def body2():
            k = (self.frames[-1], v["id"])
            path = (("L", self.frames[-1], v["id"], v["n"]),)
            self.write(path, self.opaque(("elem", self.count("elem")), v["t"]), strip(v["t"]), quiet=True)
            self.st.env[k] = LP(path, strip(v["t"]))
            self.exec(s["b"])
        self.loop("while", cond2, body2, lambda: None, s)

    def loop(self, kind, cond, body, inc, node, over=None):
        L = node.get("L", 0)
        # 1. constant trip count: unroll (an endless loop is left by its body only)
        c = node.get("c") if node.get("k") != "range" else 0
        endless = node.get("k") in ("for", "while", "do") and (c is None or isinstance(c, dict) and c.get("k") == "bool" and c.get("v"))
        before, wl = self.st.copy(), set(self.wlog or ())
        for rounds in range(0 if endless else 100):
            probe = self.enumerate(lambda: Bool(cond()))
            vals = {o.val.c for o in probe if o.kind == "fall" and isinstance(o.val, Bool)}
            if len(vals) != 1 or len(probe) != 1:
                if rounds:
                    # the number of rounds is not a constant: interpret the loop as a whole
                    self.st = before
                    if self.wlog is not None:
                        self.wlog.clear()
                        self.wlog.update(wl)
                break
            if not cond():
                return
            try:
                body()
            except Cnt:
                pass
            except Brk:
                return
            inc()
        else:
            if not endless:
                self.note("unroll@%s" % L)
        # 2. generic iteration
        self.symloop(kind, cond, body, inc, node, over)

    def local_before(self, path, before):
        return path

    def symloop(self, kind, cond, body, inc, node, over):
        L = node.get("L", 0)
        lid = self.count("loop")
        lid = (len(self.callstack), lid)
        I = Poly.atom(("it", lid), True, True)
        start = self.st.copy()
        envkeys = set(start.env)
        known_roots = {v.path[0] for v in start.env.values() if isinstance(v, (LP, LV))}

        def outer(path):
            r = path[0]
            return not (isinstance(r, tuple) and r and r[0] == "L" and r not in known_roots and path not in start.store and (r,) not in start.store)
        mods = {}
        closed = {}     # path -> per iteration increment (const)
        wl0 = self.wlog

        def one():
            for p, v in mods.items():
                if "#elems" in p or p[-1] == "#len":
                    # elements of a container that started empty come from earlier rounds
                    c = p[:p.index("#elems")] if "#elems" in p else p[:-1]
                    if self.st.store.get(c + ("#base",)) == (("zero",),):
                        self.st.store[c + ("#base",)] = (("loopbuilt", lid, "r"),) + c
                self.drop(p)
                self.st.store.pop(p, None)
                if isinstance(v, Vec):
                    self.write(p, v, None, quiet=True)
                elif isinstance(v, Rec):
                    self.write(p, v, v.t, quiet=True)
                else:
                    self.st.store[p] = v
            self.st.ev = []
            if not cond():
                raise Infeasible()
            base = len(self.st.facts.lst)
            try:
                body()
            except Cnt:
                pass
            inc()
            return None
        outs = []
        for rnd in range(8):
            self.st = start.copy()
            self.wlog = set()
            allw = set()
            outs = []

            def thunk():
                r = None
                self.wlog = set()
                try:
                    return one()
                finally:
                    allw.update(self.wlog)
            outs = self.enumerate(thunk)
            new = {}
            wr = set()
            for w in allw:
                if not outer(w):
                    continue
                wr.add(w)
            # collapse: keep the shortest prefixes
            wr = {w for w in wr if not any(w != x and w[:len(x)] == x for x in wr)}
            # element writes of containers: modify the container's entries
            for w in list(wr):
                # path inside a container element written at an iteration dependent index
                cut = None
                for i, x in enumerate(w):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == "[]" and PL.mentions(x[1], lambda a: a[0] in ("it", "phi")):
                        cut = i
                        break
                if cut is not None:
                    wr.discard(w)
                    wr.add(w[:cut] + ("#elems",) + w[cut + 1:])
                elif w and isinstance(w[0], tuple) and w[0] and w[0][0] in ("new",):
                    pass
            changed = False
            for w in wr:
                if w in mods:
                    continue
                changed = True
                mods[w] = self.phi(start, w, lid)
            # induction variables
            st0 = start
            if not changed:
                for w in list(mods):
                    if w in closed or "#elems" in w:
                        continue
                    ph = mods[w]
                    if isinstance(ph, (Poly, Iter)):
                        v0 = start.store.get(w)
                        if v0 is None:
                            v0 = self.start_value(start, w)
                        if isinstance(ph, Iter) and isinstance(v0, Iter):
                            d = self.step(outs, w, ph)
                            if d is not None:
                                closed[w] = d
                                mods[w] = Iter(v0.cont, v0.pos + I * d, v0.rev)
                                changed = True
                        elif isinstance(ph, Poly) and isinstance(v0, Poly):
                            d = self.step(outs, w, ph)
                            if d is not None:
                                closed[w] = d
                                mods[w] = v0 + I * d
                                changed = True
            if not changed:
                break
        else:
            self.note("loopfix@%s" % L)
        self.wlog = wl0
        # summarise
        self.st = start
        early = [o for o in outs if o.kind in ("brk", "ret", "thr")]
        subs = []
        nbase = len(start.facts.lst)
        for o in outs:
            subs.append({"guards": o.st.facts.lst[nbase:], "ev": o.st.ev, "kind": o.kind, "val": o.val, "st": o.st, "L": o.L})
            self.st.notes |= o.st.notes
        rec = self.ev("loop", lid, L=L, I=I, subs=subs, mods=dict(mods), closed=dict(closed), lk=kind,
                      entry=start, over=over, N=None, phis={}, bodyL=L)
        n_alt = 1 + len(early)
        ch = self.oracle.choose(n_alt) if n_alt > 1 else 0
        if ch > 0:
            o = early[ch - 1]
            self.st.store = dict(o.st.store)
            self.st.env = dict(o.st.env)
            self.st.cnt = dict(o.st.cnt)
            self.st.cnt["loop"] = max(self.st.cnt.get("loop", 0), lid[1] + 1)
            f = o.st.facts.copy()
            self.st.facts = f
            rec["exit"] = o
            self.st.notes |= o.st.notes
            # what the leaving iteration did, in order
            self.st.ev.extend(o.st.ev)
            for w in mods:
                if self.wlog is not None:
                    self.wlog.add(w)
            for g in o.st.facts.lst[nbase:]:
                x = self.exists_key(g, I, start)
                if x is not None:
                    try:
                        self.st.facts.assume(("t", x[0], x[1]))
                    except Infeasible:
                        raise
            if o.kind == "brk":
                return
            if o.kind == "ret":
                raise Ret(o.val, o.L)
            raise Thr(o.val, o.L)
        # normal exit
        rec["exit"] = None
        N = None
        # trip count from the loop condition
        gen = {}
        self.st = start.copy() if False else self.st
        post = {}
        for w, ph in mods.items():
            if self.wlog is not None:
                self.wlog.add(w)
        N = Poly.atom(("trips", lid), True, True)
        # install I = N state, evaluate the exit condition
        vals = dict(mods)
        falls = [o for o in outs if o.kind in ("fall", "cnt")]
        acc = {}
        for w, ph in mods.items():
            if w in closed:
                v = ph
                vals[w] = PL.sub_any(v, {PL.aid(("it", lid)): N})
                continue
            if "#elems" in w:
                continue
            vals[w] = self.summary(start, w, ph, falls, I, N, lid)
        for w, v in vals.items():
            if "#elems" in w:
                c = w.index("#elems")
                cont, suf = w[:c], w[c + 1:]
                for k in [k for k in self.st.store if len(k) > len(cont) and k[:len(cont)] == cont and k[len(cont)] not in ("#len", "#base", "#hav")
                          and k[len(cont) + 1:][:len(suf)] == suf]:
                    del self.st.store[k]
                if suf:
                    self.st.store[cont + ("#hav",)] = self.st.store.get(cont + ("#hav",), ()) + ((suf, ("loopbuilt", lid)),)
                else:
                    self.st.store[cont + ("#base",)] = (("loopbuilt", lid),) + cont
                continue
            self.drop(w)
            self.st.store.pop(w, None)
            if isinstance(v, (Vec, Rec)):
                self.write(w, v, getattr(v, "t", None), quiet=True)
            else:
                self.st.store[w] = v
        if cond():
            raise Infeasible()
        # resolve the trip count when the exit condition determines it
        tn, tg = self.trip(start, outs, nbase, I)
        if tn is not None:
            # only when it is this condition that ended the loop
            gN = PL.sub_any(tg[1], {PL.aid(("it", lid)): N})
            if self.st.facts.decide(mkc(gN, tg[2])) is not False:
                tn = None
        if tn is not None:
            rec["N"] = tn
            sub = {PL.aid(("trips", lid)): tn}
            for k in list(self.st.store):
                v = self.st.store[k]
                if v is not UNINIT and PL._touch(v, sub) if not isinstance(v, (Fn,)) else False:
                    self.st.store[k] = PL.sub_any(v, sub)
            nk = {}
            for k in list(self.st.store):
                k2 = tuple(PL.sub_any(x, sub) if isinstance(x, tuple) else x for x in k)
                if k2 != k:
                    self.st.store[k2] = self.st.store.pop(k)
            # drop facts about the trips atom
            fx = Facts()
            src = self.st.facts.lst
            for g in src:
                if PL.mentions(g, lambda a: a == ("trips", lid)):
                    continue
                try:
                    fx.assume(g)
                except Infeasible:
                    raise
            self.st.facts = fx
        # input and output of the rounds counts as done before what follows
        for k in ("io", "rd"):
            m = max([o.st.cnt.get(k, 0) for o in outs] or [0])
            if m > self.st.cnt.get(k, 0):
                self.st.cnt[k] = m + 1
        # facts that hold because no iteration left early
        for o in early:
            gs = o.st.facts.lst[nbase:]
            ks = [self.exists_key(g, I, start) for g in gs]
            ks = [k for k in ks if k is not None]
            if len(ks) == 1 and ks[0][1] is True:
                self.st.facts.assume(("t", ks[0][0], False))

    def start_value(self, start, w):
        """value a path had before the loop"""
        v = start.store.get(w)
        if v is not None:
            return v
        t = self._wtypes.get(w)
        keep, self.st = self.st, start
        try:
            if w[-1] == "#len":
                return Poly.atom(("len", self.initpath(w[:-1])), True, True)
            return self.init_value(w, t) if t else None
        finally:
            self.st = keep

    def exists_key(self, g, I, start):
        """C[i] == x for the loop counter i  ->  membership fact"""
        if g[0] == "c" and g[2] in ("==",):
            p = g[1]
            for a in p.atoms():
                at = PL.atom_of(a)
                if at[0] == "in" and isinstance(at[1], tuple) and at[1] and isinstance(at[1][-1], tuple) and at[1][-1] == ("[]", I):
                    f = Poly.atom(at)
                    for x in (f - p, f + p):
                        if not PL.mentions(x, lambda z: z[0] == "it"):
                            cont = at[1][:-1]
                            n = start.store.get(cont + ("#len",))
                            vec = Vec(n if n is not None else Poly.atom(("len", cont), True, True), cont, ())
                            return ("has", vec, x), True
        if g[0] == "t" and isinstance(g[1], tuple) and g[1][0] == "peq":
            pa, pb = g[1][1], g[1][2]
            for u, v in ((pa, pb), (pb, pa)):
                if isinstance(u, tuple) and len(u) >= 2 and u[-1] == "*" and u[-2] == ("[]", I):
                    cont = u[:-2]
                    n = start.store.get(cont + ("#len",))
                    vec = Vec(n if n is not None else Poly.atom(("len", cont), True, True), cont, ())
                    return ("has", vec, Ptr(v)), g[2]
        return None

    def phi(self, start, w, lid):
        v = start.store.get(w)
        if "#elems" in w:
            return None
        k = ("phi", lid, w)
        if w[-1] == "#len":
            return Poly.atom(k, True, True)
        if isinstance(v, Poly):
            return Poly.atom(k, v.is_int(), False)
        if isinstance(v, Mat):
            return Mat(v.r, v.c, [Poly.atom(k + (n,)) for n in range(len(v.e))], v.kind)
        if isinstance(v, Bool):
            return Bool(("t", k, True))
        if isinstance(v, Ptr):
            return Ptr((k, "*"))
        if isinstance(v, Iter):
            return Iter(v.cont, Poly.atom(k, True))
        # containers
        if w + ("#len",) in start.store or w + ("#base",) in start.store:
            return Vec(Poly.atom(("len", (k,)), True, True), (k,), ())
        tt = self._wtypes.get(w)
        if tt:
            ti = tinfo(tt)
            if ti.k == "vec":
                return Vec(Poly.atom(("len", (k,)), True, True), (k,), ())
            if ti.k == "iter":
                self.st = start
                v = self.init_value(w, tt)
                return Iter(v.cont, Poly.atom(k, True))
            return self.opaque(k, tt)
        return Opq(*k)

    def step(self, outs, w, ph):
        """constant increment of w in every continuing partition"""
        d = None
        for o in outs:
            if o.kind not in ("fall", "cnt"):
                continue
            v = o.st.store.get(w)
            if isinstance(ph, Iter):
                if not isinstance(v, Iter) or v.cont != ph.cont:
                    return None
                x = v.pos - ph.pos
            else:
                if not isinstance(v, Poly):
                    return None
                x = v - ph
            if not x.is_const():
                # loop invariant symbolic steps are accumulators, handled at the exit
                return None
            c = x.cval()
            if d is None:
                d = c
            elif d != c:
                return None
        return d

    def summary(self, start, w, ph, falls, I, N, lid):
        """value of w after the loop"""
        v0 = start.store.get(w)
        if isinstance(ph, Mat) and isinstance(v0, Mat):
            es = []
            for n in range(len(ph.e)):
                ds = []
                for o in falls:
                    v = o.st.store.get(w)
                    if not isinstance(v, Mat) or len(v.e) != len(ph.e):
                        ds = None
                        break
                    ds.append((self.iter_guards(o, start, lid), v.e[n]))
                es.append(self.closed_form(v0.e[n], ph.e[n], ds, I, N, lid, w + (n,)))
            return Mat(ph.r, ph.c, es, ph.kind)
        if isinstance(ph, Poly):
            if v0 is None:
                v0 = self.start_value(start, w)
            ds = []
            for o in falls:
                v = o.st.store.get(w)
                if not isinstance(v, Poly):
                    ds = None
                    break
                ds.append((self.iter_guards(o, start, lid), v))
            if v0 is not None:
                return self.closed_form(v0, ph, ds, I, N, lid, w)
        return self.post(ph, lid, w)

    def post(self, ph, lid, w):
        k = ("post", lid, w)
        if isinstance(ph, Poly):
            return Poly.atom(k, ph.is_int())
        if isinstance(ph, Mat):
            return Mat(ph.r, ph.c, [Poly.atom(k + (n,)) for n in range(len(ph.e))], ph.kind)
        if isinstance(ph, Bool):
            return Bool(("t", k, True))
        if isinstance(ph, Ptr):
            return Ptr((k, "*"))
        if isinstance(ph, Iter):
            return Iter(ph.cont, Poly.atom(k, True))
        if isinstance(ph, Vec):
            return Vec(Poly.atom(("len", (k,)), True, True), (k,), ())
        if isinstance(ph, Rec):
            return Rec(ph.t, {n: self.post(x, lid, w + (n,)) for n, x in ph.f.items()})
        return Opq(*k)

    def iter_guards(self, o, start, lid):
        return tuple(o.st.facts.lst[len(start.facts.lst):])

    def closed_form(self, v0, ph, ds, I, N, lid, w):
        isphi = lambda a: a[0] == "phi" and a[1] == lid
        if ds:
            incs = []
            ok = True
            for g, v in ds:
                d = v - ph
                if PL.mentions(d, isphi):
                    ok = False
                    break
                incs.append((g, d))
            if ok:
                same = all(d == incs[0][1] for _, d in incs)
                if same:
                    d = incs[0][1]
                    const, var = PL.ZERO, PL.ZERO
                    for m, c in d.t.items():
                        q = Poly({m: c})
                        if PL.mentions(q, lambda a: a == ("it", lid)):
                            var = var + q
                        else:
                            const = const + q
                    r = v0 + const * N
                    if var.t:
                        B = {PL.aid(("it", lid)): Poly.atom(("bound",), True, True)}
                        for m, c in var.t.items():
                            # loop invariant factors are taken out of the sum
                            dep = tuple((a, e) for a, e in m if a in B or PL.mentions(PL.atom_of(a), lambda t: t == ("it", lid)))
                            ind = tuple(x for x in m if x not in dep)
                            q = PL.subst(Poly({dep: Q(1)}), B)
                            r = r + Poly.atom(("sum", N, q)) * Poly({ind: c})
                    return r
                B = {PL.aid(("it", lid)): Poly.atom(("bound",), True, True)}
                key = tuple(sorted(((tuple(PL.sub_any(x, B) for x in g), PL.subst(d, B)) for g, d in incs if d.t), key=PL.vid))
                return v0 + Poly.atom(("csum", N, key), v0.is_int())
        return Poly.atom(("post", lid, w), ph.is_int())

    def trip(self, start, outs, nbase, I):
        """trip count when the only loop condition is I < n with n loop invariant"""
        for o in outs:
            for g in o.st.facts.lst[nbase:nbase + 1]:
                if g[0] == "c" and g[2] in ("<=", "<", "!="):
                    p = g[1]
                    a = PL.aid(I.as_atom())
                    c = p.t.get(((a, 1),))
                    if c is None:
                        continue
                    rest = p - I * c
                    if PL.mentions(rest, lambda x: x[0] in ("phi", "it") and x[1] == I.as_atom()[1]):
                        continue
                    if g[2] == "<=" and c == 1:
                        return (-rest + 1, g) if (I + rest).is_int() else (None, None)
                    if g[2] == "!=" and abs(c) == 1:
                        return (-rest if c == 1 else rest), g
                    if g[2] == "<=" and c > 0 and c != 1:
                        return None, None
            break
        return None, None


def embed(m, kind="tf"):
    n = m.r
    rows = [[m.at(i, j) if i < n and j < n else P(1 if i == j else 0) for j in range(n + 1)] for i in range(n + 1)]
    return Mat.of(rows, kind)
