"""Expressions and the library models of the abstract interpreter."""
import re
from fractions import Fraction as Q

from . import poly as PL
from .poly import Poly, P
from .types import tinfo, strip, is_ref, targs
from .values import *
from .facts import bare

MATK = ("mat", "tf", "rot", "se2")
PURE = {"exp", "log", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh"}


def kindof(m):
    return m.kind


def mdims(t):
    """dimensions of the dense type hidden in an expression type"""
    t = strip(t)
    ti = tinfo(t)
    if ti.k in MATK:
        return ti.r, ti.c
    m = re.search(r"Eigen::(?:Matrix|Array)<([^,<>]+), (-?\d+), (-?\d+)", t)
    if m and int(m.group(2)) > 0 and int(m.group(3)) > 0:
        return int(m.group(2)), int(m.group(3))
    return None


def blockdims(t):
    """dimensions of an Eigen::Block / VectorBlock result type"""
    t = strip(t)
    a = targs(t)
    if t.startswith("Eigen::VectorBlock<") and len(a) >= 2 and a[1].lstrip("-").isdigit():
        return int(a[1]), 1
    if t.startswith("Eigen::Block<") and len(a) >= 3:
        try:
            return int(a[1]), int(a[2])
        except ValueError:
            return None
    return None


BITS = {"long": 64, "long long": 64, "int": 32, "short": 16}


def wrapped(v, t):
    """a constant of integer type t brought into the range of the type"""
    ti = tinfo(t) if t else None
    if ti is None or ti.k != "int" or not v.is_const():
        return v
    n = BITS.get(ti.s.replace("unsigned ", ""))
    c = v.cval()
    if n is None or c.denominator != 1:
        return v
    if ti.uns:
        return v if 0 <= c < 1 << n else P(int(c) % (1 << n))
    if -(1 << n - 1) <= c < 1 << n - 1:
        return v
    if c < 0 or c >= 1 << n:
        return v
    return P(int(c) - (1 << n))


def infinite(p):
    """1, -1: plus or minus infinity; 0: anything else"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            a = PL.atom_of(m[0][0])
            if a[:2] == ("limit", "infinity") or a[0] == "float" and "inf" in str(a[1]).lower():
                return 1 if c > 0 else -1
    return 0


class EvalMixin:
    # ------------------------------------------------------------ expressions
    def eval(self, e):
        if e is None:
            return None
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expr %s@%s" % (k, e.get("L")))
            return self.unk("expr-" + k, e.get("L", 0))
        v = m(e)
        if e.get("rv") and isinstance(v, (LP, LV)):
            return self.load(v, e.get("L", 0))
        return v

    def ev_load(self, e):
        v = self.eval(e)
        if isinstance(v, (LP, LV, Comma)):
            return self.load(v, e.get("L", 0))
        return v

    def e_int(self, e):
        return Poly.const(int(e["v"]))

    def e_float(self, e):
        try:
            f = float(e["v"])
            return Poly.const(Q(repr(f)) if f == f and abs(f) != float("inf") else Q(e["v"]))
        except (ValueError, OverflowError):
            return Poly.atom(("float", e["v"]), False, e["v"].lower().startswith(("inf", "+inf")))

    def e_bool(self, e):
        return Bool(bool(e["v"]))

    def e_str(self, e):
        return Opq("str", e["v"])

    def e_null(self, e):
        return Ptr(None)

    def e_this(self, e):
        return self.this()

    def e_opq(self, e):
        return Opq("opq", e.get("n"), e.get("L"))

    def e_unk(self, e):
        for a in e.get("a") or []:
            self.eval(a)
        return self.unk("expr-" + str(e.get("n")), e.get("L", 0))

    def e_var(self, e):
        v = self.lookup(e)
        if v is not None:
            return v
        if "cval" in e:
            if e.get("ci"):
                return Poly.const(int(e["cval"]))
            return self.e_float({"v": e["cval"]})
        if "binding" in e and e["binding"] is not None:
            return self.eval(e["binding"])
        if e.get("glob"):
            return LP((("G", e["glob"]),), strip(e["t"]))
        return LP((("V", e["id"], e["n"]),), strip(e["t"]))

    def e_fn(self, e):
        return Opq("fn", e.get("q"), e.get("f"))

    def e_bound(self, e):
        return Opq("fn", e.get("q"), e.get("f"))

    def e_mem(self, e):
        b = self.eval(e["b"])
        t = strip(e["t"])
        if e.get("arrow"):
            if isinstance(b, (LP, LV)):
                b = self.load(b, e.get("L", 0))
            b = self.deref(b, e.get("cls", "?"), e.get("L", 0))
        if isinstance(b, LP):
            p = b.path + (e["n"],)
            if is_ref(e["t"]):
                r = self.st.store.get(p)
                if isinstance(r, Opq) and r.key and r.key[0] == "refto":
                    return LP(r.key[1], t)
                return LP(p + ("&",), t)
            return LP(p, t)
        if isinstance(b, Rec):
            v = b.f.get(e["n"])
            return v if v is not None else self.unk("field", e.get("L", 0), t)
        if isinstance(b, Iter):
            return LP(b.cont + (("[]", b.pos), e["n"]), t)
        if isinstance(b, Opq):
            return LP((("of", b), e["n"]), t)
        return self.unk("mem", e.get("L", 0), t)

    def e_lambda(self, e):
        return Fn(e, self.frames[-1], self.this())

    def e_throw(self, e):
        x = e.get("e")
        t = None
        while x:
            if x.get("k") == "ctor":
                t = x.get("t")
            if x.get("k") == "ctor" and len(x.get("a") or []) == 1 and x["a"][0].get("k") == "ctor":
                x = x["a"][0]
                continue
            break
        self.ev("throw", t, L=e.get("L", 0))
        from .engine import Thr
        raise Thr(t, e.get("L", 0))

    def e_zero(self, e):
        return self.zero_value(e["t"])

    def e_init(self, e):
        t = strip(e["t"])
        ti = tinfo(t)
        a = e["a"]
        if ti.k in ("int", "float", "bool", "ptr") or t in self.prog.enums:
            return self.ev_load(a[0]) if a else self.zero_value(t)
        if ti.k == "vec":
            vals = [self.rval(x) for x in a]
            return self.mkvec(vals)
        if ti.k == "arr":
            vals = [self.rval(x) for x in a]
            return self.mkvec(vals)
        fs = self.fields(t)
        if fs is not None:
            f = {}
            for (n, ft), x in zip(fs, a):
                f[n] = self.coerce(self.rval(x), ft)
            for n, ft in fs[len(a):]:
                f[n] = self.zero_value(ft)
            return Rec(t, f)
        if len(a) == 1:
            return self.eval(a[0])
        if ti.k in MATK and len(a) == ti.r * ti.c:
            return Mat(ti.r, ti.c, [self.scalar(self.eval(x)) for x in a])
        return Opq("init", t, tuple(self.rval(x) for x in a))

    def mkvec(self, vals):
        n = self.count("lit")
        return Vec(P(len(vals)), (("lit", n),), tuple((((("[]", P(i)),)), v) for i, v in enumerate(vals)))

    def rval(self, x):
        """value of an initialiser, stealing when it is an expiring object"""
        v = self.eval(x)
        return self.take(v, v.t) if isinstance(v, LP) else self.load(v)

    def e_pcast(self, e):
        v = self.eval(e["e"])
        ck = e.get("ck")
        if isinstance(v, LP):
            if ck in ("BaseToDerived", "Dynamic"):
                return LP(v.path, strip(e["t"]), v.x)
            return v
        if isinstance(v, Ptr) and ck == "Dynamic" and v.path is not None:
            key = ("dyn", strip(e["t"]), v.path)
            self.ev("dyncast", v.path, e["t"], L=e.get("L", 0))
            return Ptr(v.path, False) if not v.sure else Ptr(v.path, True)
        return v

    def e_conv(self, e):
        v = self.ev_load(e["e"])
        ck = e["ck"]
        t = strip(e["t"])
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return Bool(self.cond(v, e.get("L", 0)))
        if isinstance(v, Bool):
            return self.scalar(v)
        if ck == "FloatingToIntegral":
            p = self.scalar(v)
            r = self.truncate(p)
            self.ev("f2i", p, L=e.get("L", 0), t=t)
            return r
        if ck == "IntegralCast" and isinstance(v, Poly):
            ti, fi = tinfo(t), tinfo(e["from"])
            if ti.k == "int" and ti.uns and not fi.uns and fi.k == "int":
                self.ev("s2u", v, L=e.get("L", 0), t=t)
            if v.is_const() and ti.k == "int":
                v = wrapped(v, t)
            if ti.k == "int" and ti.s in ("signed char", "unsigned char", "char", "short", "unsigned short"):
                self.ev("narrow", v, L=e.get("L", 0), t=t)
        return v

    def known(self, v):
        """v with the roundings whose value the branch facts fix replaced by that value"""
        for m, c in list(v.t.items()):
            if len(m) == 1 and m[0][1] == 1:
                a = PL.atom_of(m[0][0])
                if a[0] == "floor":
                    lo, ls = self.st.facts.ub(-a[1])
                    hi, hs = self.st.facts.ub(a[1])
                    if lo is None or hi is None:
                        continue
                    k = (-lo).__floor__()
                    if hi < k + 1 or (hi == k + 1 and hs):
                        v = v + Poly({m: -c}) + P(k) * c
        return v

    def truncate(self, p):
        """float to integer conversion; exact on the sign known from the branch facts"""
        if p.is_int():
            return p
        from .engine import mkc
        F = self.st.facts
        lo, ls, hi, hs = F.bounds(p)
        if lo is not None and lo >= 0 or F.decide(mkc(-p, "<=")) is True:
            return self.known(PL.floor(p))
        if hi is not None and hi <= 0 or F.decide(mkc(p, "<=")) is True:
            return self.known(PL.ceil(p))
        return PL.trunc(p)

    def e_cond(self, e):
        return self.eval(e["x"]) if self.cbranch(e["c"]) else self.eval(e["y"])

    def e_new(self, e):
        n = self.count("new")
        path = (("new", n, e.get("L", 0)),)
        t = strip(e["t"])
        self.ev("new", path, t, L=e.get("L", 0))
        x = e.get("e")
        if e.get("arr"):
            return Ptr(path, True)
        if x is not None:
            self.init_at(path, t, x, e.get("L", 0))
        return Ptr(path, True)

    def e_del(self, e):
        v = self.ev_load(e["e"])
        self.ev("del", v, L=e.get("L", 0))
        return None

    def e_idx(self, e):
        b = self.eval(e["b"])
        i = self.ev_load(e["i"])
        i = self.scalar(i) if not isinstance(i, Poly) else i
        t = strip(e["t"])
        if isinstance(b, LP) and tinfo(b.t).k == "arr":
            self.ev("index", b.path, i, P(tinfo(b.t).r), L=e.get("L", 0))
            return LP(b.path + (("[]", i),), t)
        v = self.load(b) if isinstance(b, (LP, LV)) else b
        if isinstance(v, Ptr) and v.path is not None:
            if v.path[-1] == "*" and isinstance(i, Poly) and not i.t:
                return LP(v.path, t)
            return LP(v.path + (("[]", i),), t)
        return LP((("idx", self.count("idx")), ("[]", i)), t)

    # ------------------------------------------------------------ operators
    def e_bin(self, e):
        op = e["op"]
        L = e.get("L", 0)
        if op in ("&&", "||"):
            return Bool(self.cbranch(e))
        if op == ",":
            self.eval(e["l"])
            return self.eval(e["r"])
        a = self.ev_load(e["l"])
        b = self.ev_load(e["r"])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return Bool(self.compare(op, a, b))
        return self.arith(op, a, b, e.get("t"), L)

    def e_asg(self, e):
        op = e["op"]
        L = e.get("L", 0)
        if op == "=":
            r = self.eval(e["r"])
            v = self.take(r, e["t"], L) if isinstance(r, LP) else self.load(r, L)
            lv = self.eval(e["l"])
            self.assign(lv, self.coerce(v, e["t"]), L)
            return lv
        r = self.ev_load(e["r"])
        lv = self.eval(e["l"])
        old = self.load(lv, L)
        rt = e["t"]
        v = self.arith(op[:-1], old, r, rt, L)
        ti = tinfo(rt)
        if ti.k == "int" and isinstance(v, Poly) and not v.is_int() and not PL.mentions(v, lambda a: a[0].startswith("unk")):
            v = self.truncate(v)
        self.assign(lv, v, L)
        return lv

    def e_un(self, e):
        op = e["op"]
        L = e.get("L", 0)
        if op == "!":
            return Bool(not self.cbranch(e["e"]))
        if op == "*":
            v = self.ev_load(e["e"])
            if isinstance(v, Ptr) and v.path is not None and v.path == (self.this().path if self.this() else None):
                return LP(v.path, strip(e["t"]))
            return self.deref(v, strip(e["t"]), L)
        if op == "&":
            v = self.eval(e["e"])
            if isinstance(v, LP):
                return Ptr(v.path, True)
            return self.unk("addr", L)
        if op in ("++", "--"):
            lv = self.eval(e["e"])
            old = self.load(lv, L)
            d = 1 if op == "++" else -1
            if isinstance(old, Poly):
                if d < 0 and tinfo(e["t"]).uns:
                    self.ev("usub", old, PL.ONE, L=L)
                new = wrapped(old + d, e["t"])
            elif isinstance(old, Iter):
                new = Iter(old.cont, old.pos + d, old.rev)
            else:
                new = self.unk("incr", L, e["t"])
            self.assign(lv, new, L)
            return old if e.get("post") else lv
        v = self.ev_load(e["e"])
        if op == "+":
            return v
        if op == "-":
            if isinstance(v, Bool):
                v = self.scalar(v)
            if isinstance(v, Poly):
                if tinfo(e["t"]).uns:
                    self.ev("uneg", v, L=L)
                return wrapped(-v, e["t"])
            if isinstance(v, Mat):
                return v.map(lambda x: -x)
        if op == "~" and isinstance(v, Poly):
            return -v - 1
        return self.unk("un" + op, L, e.get("t"))

    def arith(self, op, a, b, t=None, L=0):
        """binary operator on values; constants of unsigned types wrap around"""
        r = self.arith0(op, a, b, t, L)
        return wrapped(r, t) if op in ("+", "-", "*") and isinstance(r, Poly) else r

    def arith0(self, op, a, b, t=None, L=0):
        if isinstance(a, Bool):
            a = self.scalar(a)
        if isinstance(b, Bool):
            b = self.scalar(b)
        ti = tinfo(t) if t else None
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "+":
                return a + b
            if op == "-":
                if ti is not None and ti.uns:
                    self.ev("usub", a, b, L=L)
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if ti is not None and ti.k == "int":
                    self.ev("idiv", a, b, L=L)
                    return PL.idiv(a, b)
                self.ev("div", a, b, L=L)
                return a / b
            if op == "%":
                self.ev("idiv", a, b, L=L)
                return PL.imod(a, b)
            if a.is_const() and b.is_const() and op in ("&", "|", "^", "<<", ">>"):
                x, y = int(a.cval()), int(b.cval())
                return P({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << min(y, 64), ">>": x >> min(y, 64)}[op])
            if op == "<<" and b.is_const():
                return a * P(2 ** int(b.cval()))
            return Poly.atom(("bit", op, a, b), True)
        if isinstance(a, Iter) and isinstance(b, Poly) and op in "+-":
            return Iter(a.cont, a.pos + (b if op == "+" else -b), a.rev)
        if isinstance(a, Iter) and isinstance(b, Iter) and op == "-" and a.cont == b.cont:
            return a.pos - b.pos
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in "+-" and a.path is not None:
            i = b if op == "+" else -b
            if not i.t:
                return a
            return Ptr(a.path + (("ptr+", i),), a.sure)
        if isinstance(a, Mat) or isinstance(b, Mat):
            r = self.matop(op, a, b, L)
            if r is not None:
                return r
        return self.unk("op" + op, L, t)

    def matop(self, op, a, b, L=0):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in "+-" and (a.r, a.c) == (b.r, b.c):
                r = a + b if op == "+" else a - b
                return Mat(r.r, r.c, r.e, "arr" if a.kind == "arr" else "m")
            if a.kind == "arr" and b.kind == "arr" and (a.r, a.c) == (b.r, b.c):
                if op == "*":
                    return Mat(a.r, a.c, [x * y for x, y in zip(a.e, b.e)], "arr")
                if op == "/":
                    return Mat(a.r, a.c, [x / y for x, y in zip(a.e, b.e)], "arr")
            if op == "*":
                if a.kind in ("tf", "se2") and b.kind in ("m",) and b.r == a.r - 1:
                    n = a.r - 1
                    R, T = a.block(0, 0, n, n), a.block(0, n, n, 1)
                    m = R @ b
                    return Mat(m.r, m.c, [m.at(i, j) + T.e[i] for j in range(m.c) for i in range(n)])
                if a.kind in ("tf", "se2") and b.kind == "rot" and b.r == a.r - 1:
                    from .engine import embed
                    return Mat(a.r, a.c, (a @ embed(b)).e, a.kind)
                if b.kind in ("tf", "se2") and a.kind == "rot" and a.r == b.r - 1:
                    from .engine import embed
                    return Mat(b.r, b.c, (embed(a) @ b).e, b.kind)
                if a.c == b.r:
                    r = a @ b
                    k = "m"
                    if a.kind in ("tf", "se2") and b.kind in ("tf", "se2"):
                        k = a.kind
                    elif a.kind == "rot" and b.kind == "rot":
                        k = "rot"
                    return Mat(r.r, r.c, r.e, k)
                if a.r * a.c == 1:
                    return b.scale(a.e[0])
                if b.r * b.c == 1:
                    return a.scale(b.e[0])
            return None
        if isinstance(a, Mat) and isinstance(b, Poly):
            if op == "*":
                return self.keep(a, a.scale(b))
            if op == "/":
                self.ev("div", a, b, L=L)
                return self.keep(a, a.scale(PL.inv(b)))
            if op in "+-" and (a.kind == "arr" or a.r * a.c == 1):
                return Mat(a.r, a.c, [x + b if op == "+" else x - b for x in a.e], a.kind)
        if isinstance(b, Mat) and isinstance(a, Poly):
            if op == "*":
                return self.keep(b, b.scale(a))
            if op in "+-" and (b.kind == "arr" or b.r * b.c == 1):
                return Mat(b.r, b.c, [a + x if op == "+" else a - x for x in b.e], b.kind)
            if op == "/" and b.kind == "arr":
                return Mat(b.r, b.c, [a / x for x in b.e], "arr")
        return None

    def keep(self, a, r):
        return Mat(r.r, r.c, r.e, "arr" if a.kind == "arr" else "m")

    def compare(self, op, a, b):
        from .engine import mkc, neg
        a = self.load(a)
        b = self.load(b)
        if op == "!=":
            r = self.compare("==", a, b)
            return neg(r)
        if op in (">", ">="):
            return self.compare({">": "<", ">=": "<="}[op], b, a)
        if isinstance(a, Bool) and isinstance(b, Bool) and op == "==":
            if b.c in (True, False):
                return a.c if b.c else neg(a.c)
            if a.c in (True, False):
                return b.c if a.c else neg(b.c)
            return self.branch(a.c) == self.branch(b.c)
        if isinstance(a, Bool):
            a = self.scalar(a)
        if isinstance(b, Bool):
            b = self.scalar(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            i, j = infinite(a), infinite(b)
            if i != j:       # reals are finite
                return False if op == "==" else i < j
            return mkc(a - b, op)
        if isinstance(a, Opq) and a.key and a.key[0] == "end" and isinstance(b, Iter):
            return self.compare(op, b, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "==":
            if a.path == b.path:
                return True
            if a.path is None or b.path is None:
                return neg(self.nonnull(b if a.path is None else a))
            for x, y in ((a.path, b.path), (b.path, a.path)):
                if x and isinstance(x[0], tuple) and x[0][0] == "new" and y[:1] != x[:1]:
                    return False
            x, y = sorted((a.path, b.path), key=PL.vid)
            return ("t", ("peq", x, y), True)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.cont == b.cont:
            if a.rev and b.rev:
                a, b = b, a
            return mkc(a.pos - b.pos, op)
        if isinstance(a, Mat) and isinstance(b, Mat) and op == "==" and len(a.e) == len(b.e):
            for x, y in zip(a.e, b.e):
                if not self.branch(mkc(x - y, "==")):
                    return False
            return True
        if op == "==":
            if type(a) is type(b) and not isinstance(a, Opq) and a == b:
                return True
            if isinstance(a, Opq) and a == b and a.key[:1] not in (("unk",),):
                return True
            x, y = sorted((a, b), key=PL.vid)
            return ("t", ("eq", x, y), True)
        return ("t", ("rel", op, a, b), True)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e):
        t = strip(e["t"])
        ti = tinfo(t)
        L = e.get("L", 0)
        a = e["a"]
        if ti.k in MATK or ti.k == "dynmat" or t.startswith("Eigen::"):
            return self.eigen_ctor(e, t, ti, a, L)
        if e.get("ck") in ("copy", "move") and ti.k != "cls":
            v = self.eval(a[0])
            if e["ck"] == "move" and isinstance(v, LP):
                return self.take(LP(v.path, v.t, True), t, L)
            return self.load(v, L)
        if ti.k == "vec":
            return self.vec_ctor(e, t, ti, a, L)
        if ti.k == "sptr":
            if not a:
                return Ptr(None)
            v = self.eval(a[0])
            v = self.take(v, v.t if isinstance(v, LP) else t, L)
            return v
        if ti.k == "iter":
            if not a:
                return self.zero_iter(t)
            return self.ev_load(a[0])
        if ti.k == "pair":
            if len(a) == 2:
                return Rec(t, {"first": self.coerce(self.rval(a[0]), ti.e[0]), "second": self.coerce(self.rval(a[1]), ti.e[1])})
            if len(a) == 1:
                return self.ev_load(a[0])
            return Rec(t, {"first": self.zero_value(ti.e[0]), "second": self.zero_value(ti.e[1])})
        if ti.k == "str":
            if not a:
                return Opq("str", "")
            vs = tuple(self.load(self.eval(x)) for x in a)
            if isinstance(vs[0], Opq) and vs[0].key[:1] == ("str",):
                return vs[0]
            return Opq("strctor", vs[:1])
        if self.fields(t) is not None:
            n = self.count("tmp")
            path = (("tmp", n),)
            h = self.hooks.get(bare(e.get("q") or ""))
            if h:
                r = h(self, e, None, [self.eval(x) for x in a])
                if r is not NotImplemented:
                    return r
            if e.get("ck") in ("copy", "move"):
                f = self.prog.funcs.get(e.get("f"))
                if f is None or f.get("dflt") or not f.get("b"):
                    return self.load(self.eval(a[0]))
            self.construct(path, t, e)
            return LP(path, t)
        if e.get("ck") in ("copy", "move") and a:
            return self.load(self.eval(a[0]))
        return Opq("ctor", bare(e.get("q") or t), tuple(self.load(self.eval(x)) for x in a))

    def zero_iter(self, t):
        return Iter((("noiter",),), PL.ZERO)

    def eigen_ctor(self, e, t, ti, a, L):
        args = [self.eval(x) for x in a]
        if ti.k in MATK:
            if not args:
                if ti.k == "se2":
                    return Mat(3, 3, rigid2(0, 0, 0).e, "se2")
                return self.uninit((("tmp", self.count("tmp")),), t) or self.unk("ctor", L, t)
            vs = [self.load(x, L) for x in args]
            if t.startswith("Eigen::AngleAxis<"):
                if len(vs) == 2 and isinstance(vs[0], Poly) and isinstance(vs[1], Mat):
                    ax = [x.cval() if x.is_const() else None for x in vs[1].e]
                    if ax == [0, 0, 1] or ax == [0, 0, -1]:
                        ang = vs[0] if ax[2] == 1 else -vs[0]
                        r = rot2(ang)
                        m = [[r.at(0, 0), r.at(0, 1), 0], [r.at(1, 0), r.at(1, 1), 0], [0, 0, 1]]
                        return Mat.of(m, "rot")
                return self.unk("AngleAxis", L, t)
            if t.startswith("Eigen::Translation<"):
                n = ti.r - 1
                if len(vs) == 1 and isinstance(vs[0], Mat):
                    vs = list(vs[0].e)
                if len(vs) == n and all(isinstance(x, Poly) for x in vs):
                    rows = [[(1 if i == j else 0) for j in range(n)] + [vs[i]] for i in range(n)]
                    return Mat.of(rows + [[0] * n + [1]], "tf")
                return self.unk("Translation", L, t)
            if ti.k == "rot" and ti.r == 2:
                if isinstance(vs[0], Poly):
                    return rot2(vs[0])
                if isinstance(vs[0], Mat) and vs[0].r == 2:
                    return Mat(2, 2, vs[0].e, "rot")
                return self.unk("Rotation2D", L, t)
            if ti.k == "se2":
                return self.se2_ctor(vs, L)
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, Mat):
                    return self.coerce(v, t)
                if isinstance(v, Poly) and ti.r * ti.c == 1:
                    return Mat(1, 1, [v])
                return self.unk("mat-ctor", L, t)
            if len(vs) == ti.r * ti.c and all(isinstance(v, (Poly, Bool)) for v in vs):
                return Mat(ti.r, ti.c, [self.scalar(v) for v in vs])
            return self.unk("mat-ctor", L, t)
        if t.startswith("Eigen::SelfAdjointEigenSolver<"):
            v = self.load(args[0]) if args else None
            return Opq("eig", v)
        if t.startswith("Eigen::Map<"):
            d = mdims(t)
            return Opq("map", self.load(args[0]) if args else None, d)
        if len(args) == 1:
            return args[0]
        return Opq("ctor", bare(e.get("q") or t), tuple(self.load(x) for x in args))

    def se2_ctor(self, vs, L):
        if not vs:
            return Mat(3, 3, rigid2(0, 0, 0).e, "se2")
        if len(vs) == 3 and all(isinstance(v, Poly) for v in vs):
            return Mat(3, 3, rigid2(*vs).e, "se2")
        v = vs[0]
        if isinstance(v, Mat) and v.r * v.c == 3:
            return Mat(3, 3, rigid2(*v.e).e, "se2")
        if isinstance(v, Mat) and v.r == 3 and v.c == 3:
            return Mat(3, 3, v.e, "se2")
        return self.unk("SE2", L, "g2o::SE2")

    def vec_ctor(self, e, t, ti, a, L):
        if not a:
            return Vec(PL.ZERO, (("zero",),), ())
        args = [self.eval(x) for x in a]
        v0 = self.load(args[0])
        if isinstance(v0, Vec):
            if isinstance(args[0], LP) and (args[0].x):
                return self.take(args[0], t, L)
            return v0
        if isinstance(v0, Poly):
            fill = self.load(args[1]) if len(args) > 1 else None
            if fill is None or isinstance(fill, Opq):
                return Vec(v0, (("zero",),), ())
            return Vec(v0, (("fill", fill),), ())
        if isinstance(v0, Iter) and len(args) > 1:
            v1 = self.load(args[1])
            if isinstance(v1, Iter) and v1.cont == v0.cont:
                src = self.read(v0.cont, t)
                if not v0.pos.t and isinstance(src, Vec) and v1.pos == src.n:
                    return src
                return Vec(v1.pos - v0.pos, (("range", src, v0.pos),), ())
        return self.opaque(("unk", "vec", self.count("unk")), t)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        L = e.get("L", 0)
        q = bare(e.get("q") or "?")
        obj = None
        if e.get("obj") is not None:
            obj = self.eval(e["obj"])
            if e.get("arrow"):
                v = self.load(obj, L) if isinstance(obj, (LP, LV)) else obj
                if isinstance(v, Ptr) and self.this() is not None and v.path == self.this().path and e["obj"].get("k") == "this":
                    obj = LP(v.path, e.get("cls", "?"))
                else:
                    obj = self.deref(v, e.get("cls", "?"), L)
        if e.get("ce") is not None:
            fv = self.load(self.eval(e["ce"]))
            args = [self.eval(x) for x in e["a"]]
            if isinstance(fv, Fn):
                return self.call_fn(fv, args)
            return self.unknown_call(e, q, None, args)
        if q not in self.skipargs:
            args = [self.eval(x) for x in e["a"]]
        else:
            args = []
        h = self.hooks.get(q)
        if h:
            r = h(self, e, obj, args)
            if r is not NotImplemented:
                return r
        if isinstance(obj, Fn) or (obj is not None and e.get("op") == "()" and isinstance(obj, LP) and isinstance(self.st.store.get(obj.path), Fn)):
            return self.call_fn(obj if isinstance(obj, Fn) else self.st.store[obj.path], args)
        f = self.resolve(e, obj)
        if f is not None and q not in self.noinline and f["f"] not in self.noinline:
            if self.callstack.count(f["f"]) >= 1:
                return self.unknown_call(e, q, obj, args)
            if f.get("b") or f.get("dflt"):
                return self.inline(f, e, obj, args)
        r = self.lib(q, e, obj, args, L)
        if r is not NotImplemented:
            return r
        return self.unknown_call(e, q, obj, args)

    skipargs = {"__assert_fail"}

    def resolve(self, e, obj):
        f = self.prog.funcs.get(e.get("f"))
        if e.get("virt") and self.virtual_self and isinstance(obj, LP) and self.thisp and obj.path == ("this",):
            if not (e.get("qual")):
                name = (f["n"] if f else bare(e["q"]).split("::")[-1])
                for g in self.prog.funcs.values():
                    if g.get("cls") == self.virtual_self and g["n"] == name and len(g["ps"]) == len(e["a"]):
                        return g
        return f

    def inline(self, f, e, obj, args):
        L = e.get("L", 0)
        if f.get("dflt") and not f.get("b"):
            if f.get("ca") or f.get("ma"):
                v = args[0]
                v = self.load(v)
                self.assign(obj, v, L)
                return obj
            return None
        this = None
        if obj is not None and not f.get("static"):
            if isinstance(obj, LP):
                this = Ptr(obj.path, True)
            elif isinstance(obj, LV):
                this = Ptr(obj.path, True)
            else:
                v = self.load(obj)
                path = (("tmp", self.count("tmp")),)
                self.write(path, v, e.get("cls"), L, quiet=True)
                this = Ptr(path, True)
        self.ev("call", bare(e.get("q")), tuple(args), L=L, obj=obj, inl=True)
        v = self.call_body(f, this, args)
        if v is None and strip(f["rt"]) != "void":
            return self.unk("noreturn", L, f["rt"])
        return v

    def call_fn(self, fn, args):
        n = fn.node
        self.frames.append(self.count("frame") + 1)
        self.thisp.append(fn.this)
        self.callstack.append("lambda@%s" % n.get("L"))
        from .engine import Ret
        try:
            for p, v in zip(n["ps"], args):
                self.bind(p, v)
            try:
                if n.get("body"):
                    self.exec(n["body"])
                r = None
            except Ret as x:
                r = x.v
            return self.load(r) if r is not None else None
        finally:
            self.frames.pop()
            self.thisp.pop()
            self.callstack.pop()

    def unknown_call(self, e, q, obj, args):
        L = e.get("L", 0)
        vals = tuple(self.load(a) for a in args)
        ov = None
        if isinstance(obj, LP):
            ov = Opq("at", obj.path)
        elif obj is not None:
            ov = self.load(obj)
        n = self.count("call")
        self.ev("call", q, vals, L=L, obj=obj, inl=False, lvs=tuple(args), n=n)
        self.note("call %s@%s" % (q, L))
        # effects: non-const reference arguments and the receiver
        for a, m in zip(args, e.get("pm") or []):
            if m in (2,) and isinstance(a, LP):
                self.havoc(a, ("unk", q, n))
            if m == 5 and self.ptrpath(a) is not None:
                self.havoc(LP(self.ptrpath(a), "?"), ("unk", q, n))
        if obj is not None and not e.get("cm") and isinstance(obj, LP) and not e.get("st"):
            self.havoc(obj, ("unk", q, n))
        rt = e.get("rt") or e.get("t") or "?"
        if strip(rt) == "void":
            return None
        key = ("unk", "call", q, ov, vals, n)
        if is_ref(rt):
            return LP((key,), strip(rt))
        return self.opaque(key, rt)

    def havoc(self, lp, key):
        t = lp.t
        if lp.path and lp.path[0] == "this" and len(lp.path) == 1:
            self.ev("havoc", lp.path)
            for k in [k for k in self.st.store if k[:1] == ("this",)]:
                del self.st.store[k]
            self.st.store[("this", "#havoc")] = P(self.count("havoc"))
            self.note("havoc-this")
            return
        if t == "?":
            for k in [k for k in self.st.store if k[:len(lp.path)] == lp.path]:
                del self.st.store[k]
            self.note("havoc")
            return
        self.write(lp.path, self.opaque(key + lp.path, t), t, quiet=True)

    # ------------------------------------------------------------ library
    def lib(self, q, e, obj, args, L):
        parts = q.split("::")
        name = parts[-1]
        if name.startswith("operator") and len(name) > 8 and not name[8].isalnum():
            op = name[8:].strip()
        else:
            op = None
        ns = parts[0] if len(parts) > 1 else ""
        cls = parts[-2] if len(parts) > 1 else ""
        if q == "__assert_fail":
            from .engine import Infeasible
            raise Infeasible()
        if op == "=" and obj is not None and len(args) == 1 and cls not in ("unique_ptr", "shared_ptr"):
            return self.op_assign(e, obj, args[0], L)
        if cls in ("vector", "deque", "array", "list"):
            return self.m_vector(name, op, e, obj, args, L)
        if cls in ("unique_ptr", "shared_ptr", "__shared_ptr", "__shared_ptr_access", "__uniq_ptr_impl", "shared_ptr"):
            return self.m_sptr(name, op, e, obj, args, L)
        if cls == "__normal_iterator" or cls == "__gnu_cxx" or cls.endswith("_iterator"):
            return self.m_iter(name, op, e, obj, args, L)
        if ns == "Eigen":
            return self.m_eigen(name, op, cls, e, obj, args, L)
        if ns == "g2o":
            return self.m_g2o(name, op, cls, e, obj, args, L)
        if ns == "std" or ns == "":
            return self.m_std(name, op, cls, e, obj, args, L)
        if op and obj is None and len(args) == 2:
            return self.free_op(op, e, args, L)
        return NotImplemented

    def op_assign(self, e, obj, arg, L):
        t = obj.t if isinstance(obj, LP) else None
        ti = tinfo(t) if t else None
        if ti is not None and ti.k == "vec" and isinstance(arg, LP) and (e.get("ma") or arg.x):
            v = self.take(LP(arg.path, arg.t, True), t, L)
        else:
            v = self.load(arg, L)
        if isinstance(obj, (LV, Comma)):
            if isinstance(v, Opq):
                v = self.unk("assign", L)
            self.assign(obj, v, L)
            return obj
        if isinstance(obj, LP):
            if ti is not None and ti.k in MATK and not isinstance(v, Mat):
                v = self.unk("assign", L, t) if not (isinstance(v, Poly) and ti.r * ti.c == 1) else v
            if ti.k == "cls" and t.startswith("Eigen::") and isinstance(v, Mat):
                pass
            self.assign(obj, self.coerce(v, t), L)
            return obj
        if isinstance(obj, Opq) and obj.key[:1] == ("map",):
            p = obj.key[1]
            if isinstance(p, Ptr) and p.path is not None and isinstance(v, Mat):
                for i, x in enumerate(v.e):
                    self.write(p.path + (("[]", P(i)),), x, "double", L)
                return obj
        self.note("assign-unknown@%s" % L)
        return obj

    def free_op(self, op, e, args, L):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return Bool(self.compare(op, self.load(args[0]), self.load(args[1])))
        if op in ("+", "-", "*", "/", "%"):
            return self.arith(op, self.load(args[0]), self.load(args[1]), e.get("t"), L)
        return NotImplemented

    # ---- <cmath>, <algorithm>, streams, strings
    def m_std(self, name, op, cls, e, obj, args, L):
        if op in ("<<", ">>") and (cls in ("std", "basic_ostream", "basic_istream", "")):
            return self.stream(op, e, obj, args, L)
        if op in ("==", "!=", "<", ">", "<=", ">=") and obj is None and len(args) == 2:
            return self.free_op(op, e, args, L)
        if cls in ("basic_ios", "basic_istream", "basic_ostream", "basic_stringstream", "basic_ifstream", "basic_ofstream", "ios_base", "basic_ostringstream", "basic_istringstream"):
            if name in ("good", "operator bool", "operator!", "fail", "eof", "bad"):
                n = self.st.cnt.get("io", 0)
                k = ("streamok" if name in ("good", "operator bool", "fail", "operator!") else name, self.spath(obj), n)
                return Bool(("t", k, name not in ("fail", "operator!")))
            if name in ("flush", "precision", "width", "setf", "unsetf"):
                return obj if name == "flush" else Opq("stream", name)
            if name == "str":
                return Opq("str()", self.spath(obj), self.st.cnt.get("io", 0))
            return NotImplemented
        if cls == "basic_string":
            return self.m_string(name, op, e, obj, args, L)
        if obj is not None:
            if cls == "pair":
                return NotImplemented
            return NotImplemented
        if name in ("move", "forward"):
            a = args[0]
            if isinstance(a, LP) and len(args) == 1:
                if name == "forward" and not strip(e.get("rt", "")).endswith("") :
                    return a
                x = True if name == "move" else e.get("rt", "").endswith("&&")
                return LP(a.path, a.t, x)
            return a
        nums = None
        if name in ("abs", "fabs", "floor", "ceil", "sqrt", "sin", "cos", "tan", "atan2", "pow", "exp", "log", "min", "max", "fmod",
                    "remainder", "isnan", "isinf", "isfinite", "round", "hypot", "fmin", "fmax", "asin", "acos", "atan", "sinh", "cosh", "tanh", "trunc", "lround", "sincos", "cbrt"):
            nums = [self.load(a) for a in args]
            if name in ("min", "max", "fmin", "fmax") and len(nums) == 2 and all(isinstance(x, Poly) for x in nums):
                a, b = nums
                if name.endswith("min"):
                    return b if self.branch(self.compare("<", b, a)) else a
                return b if self.branch(self.compare("<", a, b)) else a
            if not all(isinstance(x, (Poly, Bool)) for x in nums):
                return NotImplemented
            nums = [self.scalar(x) for x in nums]
            r = self.math(name, nums, e, L)
            if r is not None:
                return r
            return NotImplemented
        if name == "make_pair":
            t = strip(e["t"])
            return Rec(t, {"first": self.rv(args[0]), "second": self.rv(args[1])})
        if name == "swap" and len(args) == 2:
            a, b = self.load(args[0]), self.load(args[1])
            self.assign(args[0], b, L)
            self.assign(args[1], a, L)
            return None
        if name in ("begin", "end", "cbegin", "cend") and len(args) == 1:
            return self.m_vector(name, None, e, args[0], [], L)
        if name == "find" and len(args) == 3:
            b, en = self.load(args[0]), self.load(args[1])
            x = self.load(args[2])
            if isinstance(b, Iter) and isinstance(en, Iter) and b.cont == en.cont:
                vec = self.read(b.cont, "std::vector<int>")
                if isinstance(vec, Vec) and not b.pos.t and en.pos == vec.n:
                    return Iter(b.cont, Poly.atom(("find", vec, x), True, True))
                return Iter(b.cont, Poly.atom(("findr", b, en, x), True, True))
            return NotImplemented
        if name == "remove" and len(args) == 3:
            b, en = self.load(args[0]), self.load(args[1])
            x = self.load(args[2])
            if isinstance(b, Iter) and isinstance(en, Iter) and b.cont == en.cont:
                vec = self.read(b.cont, "std::vector<int>")
                if isinstance(vec, Vec) and not b.pos.t and en.pos == vec.n:
                    self.ev("remove", b.cont, vec, x, L=L)
                    self.write(b.cont, Vec(vec.n, (("remove", vec, x),), ()), "std::vector<int>", L, quiet=True)
                    return Iter(b.cont, Poly.atom(("removed", vec, x), True, True))
            return NotImplemented
        if name in ("any_of", "all_of", "none_of", "for_each", "find_if", "count_if", "find_if_not"):
            return self.algo(name, e, args, L)
        if name in ("make_unique", "make_shared"):
            n = self.count("new")
            path = (("new", n, L),)
            t = tinfo(strip(e["t"])).e or "?"
            self.ev("new", path, t, L=L)
            self.construct_vals(path, t, args, L)
            return Ptr(path, True)
        if name in ("accumulate", "inner_product") and len(args) >= 3:
            return NotImplemented
        if cls == "numeric_limits":
            inf = name in ("infinity",)
            if name in ("infinity", "quiet_NaN", "epsilon", "max", "min", "lowest"):
                ti = tinfo(e["t"])
                if name == "lowest":
                    return -Poly.atom(("limit", "max", strip(e["t"])), ti.k == "int", True)
                return Poly.atom(("limit", name, strip(e["t"])), ti.k == "int", name != "quiet_NaN")
        if name in ("get",) and cls == "std":
            return NotImplemented
        if name in ("distance",) and len(args) == 2:
            a, b = self.load(args[0]), self.load(args[1])
            if isinstance(a, Iter) and isinstance(b, Iter):
                return b.pos - a.pos
        if name in ("next", "prev") and args:
            a = self.load(args[0])
            d = self.load(args[1]) if len(args) > 1 else PL.ONE
            if isinstance(a, Iter) and isinstance(d, Poly):
                return Iter(a.cont, a.pos + (d if name == "next" else -d))
        if name in ("fill",) and len(args) == 3:
            return NotImplemented
        if name in ("endl", "flush"):
            return args[0] if args else None
        if name in ("to_string",):
            return Opq("to_string", self.load(args[0]))
        return NotImplemented

    def rv(self, a):
        return self.take(a, a.t) if isinstance(a, LP) else self.load(a)

    def math(self, name, n, e, L):
        if name in ("abs", "fabs"):
            x = n[0]
            r = PL.pabs(x)
            a = r.as_atom()
            if a and a[0] == "abs":
                # the sign is often known from the branch facts
                lo, _, hi, _ = self.st.facts.bounds(x)
                if lo is not None and lo >= 0:
                    return x
                if hi is not None and hi <= 0:
                    return -x
            return r
        if name == "floor":
            return self.known(PL.floor(n[0]))
        if name == "ceil":
            return self.known(PL.ceil(n[0]))
        if name == "trunc":
            return self.truncate(n[0])
        if name in ("round", "lround"):
            return Poly.atom(("round", n[0]), True)
        if name == "sqrt":
            self.ev("sqrt", n[0], L=L)
            return PL.sqrt(n[0])
        if name == "hypot":
            return PL.sqrt(n[0] * n[0] + n[1] * n[1])
        if name == "sin":
            return PL.sin(n[0])
        if name == "cos":
            return PL.cos(n[0])
        if name == "atan2":
            return PL.atan2(n[0], n[1])
        if name == "pow":
            if n[1].is_const():
                c = n[1].cval()
                if c.denominator == 1 and abs(c) <= 8:
                    return n[0] ** int(c)
                if c == Q(1, 2):
                    return PL.sqrt(n[0])
            return PL.func("pow", n[0], n[1])
        if name == "log":
            self.ev("log", n[0], L=L)
        if name in PURE:
            return PL.func(name, n[0])
        if name == "fmod":
            return Poly.atom(("fmod", n[0], n[1]))
        if name == "remainder":
            c = n[1]
            if c.is_const() and abs(float(c.cval()) - 6.283185307179586) < 1e-9:
                return PL.wrap(n[0])
            return Poly.atom(("remainder", n[0], n[1]))
        if name == "isnan":
            return Bool(("t", ("isnan", n[0]), True)) if not n[0].is_const() else Bool(False)
        if name == "isinf":
            return Bool(("t", ("isinf", n[0]), True)) if not n[0].is_const() else Bool(False)
        if name == "isfinite":
            return Bool(True) if finite(n[0]) else Bool(("t", ("isfinite", n[0]), True))
        return None

    def spath(self, obj):
        if isinstance(obj, LP):
            return obj.path
        return ("stream",)

    def stream(self, op, e, obj, args, L):
        if obj is None:
            obj, args = args[0], args[1:]
        if isinstance(obj, Bool) or isinstance(obj, Poly):
            return NotImplemented
        n = self.count("io") + 1
        a = args[0]
        if op == "<<":
            if isinstance(a, Comma):
                a = a.lv
            self.ev("out", self.load(a), L=L, stream=self.spath(obj), n=n, vt="char" if str(e.get("f", "")).rstrip(")").endswith("char") else "")
            ov = obj if isinstance(obj, LP) else None
            if isinstance(obj, (LP, LV)) and tinfo(obj.t).k in MATK:
                return NotImplemented
            return obj
        self.ev("inp", a.path if isinstance(a, LP) else a, L=L, stream=self.spath(obj), lv=a, n=n)
        if isinstance(a, (LP, LV)):
            k = ("rd", self.count("rd"))
            if isinstance(a, LV) and a.r == 0:
                self.assign(a, Poly.atom(k), L)
            elif isinstance(a, LP):
                self.write(a.path, self.opaque(k, a.t), a.t, L)
        return obj

    def m_string(self, name, op, e, obj, args, L):
        v = self.load(obj) if obj is not None else None
        if name in ("size", "length"):
            return Poly.atom(("strlen", v), True, True)
        if name == "find":
            return Poly.atom(("strfind", v, tuple(self.load(a) for a in args)), True, True)
        if name in ("rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            return Poly.atom(("strsearch", name, v, tuple(self.load(a) for a in args)), True, True)
        if name == "substr":
            return Opq("substr", v, tuple(self.load(a) for a in args))
        if name == "empty":
            from .engine import mkc
            return Bool(mkc(Poly.atom(("strlen", v), True, True), "=="))
        if name in ("c_str", "data"):
            return Opq("cstr", v)
        return NotImplemented

    def algo(self, name, e, args, L):
        from .engine import mkc
        b, en = self.load(args[0]), self.load(args[1])
        fn = args[2] if isinstance(args[2], Fn) else self.load(args[2])
        if not (isinstance(b, Iter) and isinstance(en, Iter) and b.cont == en.cont and isinstance(fn, Fn)):
            return NotImplemented
        # as a loop over positions
        ip = (("L", self.frames[-1], "algo", self.count("algo")),)
        res = ip + ("res",)
        self.st.store[ip] = b.pos
        if name == "count_if":
            self.st.store[res] = PL.ZERO
        et = strip(fn.node["ps"][0]["t"])
        from .engine import Brk

        def cond():
            return self.branch(mkc(self.st.store[ip] - en.pos, "<"))

        def body():
            r = self.call_fn(fn, [LP(b.cont + (("[]", self.st.store[ip]),), et)])
            if name == "for_each":
                return
            c = self.branch(self.cond(r))
            if name == "count_if":
                if c:
                    self.st.store[res] = self.st.store[res] + 1
                    if self.wlog is not None:
                        self.wlog.add(res)
                return
            if c == (name in ("any_of", "find_if", "none_of")):
                self.st.cnt["algohit"] = self.st.cnt.get("algohit", 0) + 1
                self.st.store[ip + ("hit",)] = PL.ONE
                raise Brk()

        def inc():
            self.st.store[ip] = self.st.store[ip] + 1
            if self.wlog is not None:
                self.wlog.add(ip)
        self.st.store[ip + ("hit",)] = PL.ZERO
        self.loop("range", cond, body, inc, {"L": L}, over=LP(b.cont, "?"))
        hit = self.st.store.get(ip + ("hit",))
        hit = bool(isinstance(hit, Poly) and hit == PL.ONE)
        if name == "for_each":
            return fn
        if name == "count_if":
            return self.st.store[res]
        if name == "any_of":
            return Bool(hit)
        if name in ("all_of", "none_of"):
            return Bool(not hit)
        return Iter(b.cont, self.st.store[ip])

    def construct_vals(self, path, t, vals, L):
        """construct a t at path from argument values (emplace, make_unique)"""
        ti = tinfo(t)
        if ti.k not in ("cls", "pair"):
            if not vals:
                z = self.zero_value(t)
                self.write(path, z, t, L)
            elif len(vals) == 1:
                self.write(path, self.coerce(self.rv(vals[0]), t), t, L)
            elif ti.k in MATK and all(isinstance(self.load(v), Poly) for v in vals) and len(vals) == ti.r * ti.c:
                self.write(path, Mat(ti.r, ti.c, [self.load(v) for v in vals]), t, L)
            else:
                self.write(path, self.unk("emplace", L, t), t, L)
            return
        if ti.k == "pair" and len(vals) == 2:
            self.write(path, Rec(t, {"first": self.coerce(self.rv(vals[0]), ti.e[0]), "second": self.coerce(self.rv(vals[1]), ti.e[1])}), t, L)
            return
        if len(vals) == 1 and isinstance(self.load(vals[0]), Rec) and strip(self.load(vals[0]).t) == strip(t):
            cs = [f for f in self.prog.funcs.values() if f.get("ctor") and f.get("cls") == strip(t) and f.get("copy") and f.get("b") and not f.get("dflt")]
            if not cs:
                self.write(path, self.load(vals[0]), t, L)
                return
        c = [f for f in self.prog.funcs.values() if f.get("ctor") and f.get("cls") == strip(t) and len(f["ps"]) == len(vals)
             and not (f.get("copy") or f.get("move"))]
        if len(vals) == 1 and isinstance(self.load(vals[0]), Rec) and strip(self.load(vals[0]).t) == strip(t):
            c = [f for f in self.prog.funcs.values() if f.get("ctor") and f.get("cls") == strip(t) and f.get("copy")]
        if c and len(c) == 1 and c[0]["f"] not in self.callstack:
            self.call_body(c[0], Ptr(path, True), list(vals))
            return
        if not vals and self.fields(t) is not None:
            self.construct(path, t, {"f": None, "a": [], "L": L})
            return
        self.write(path, self.unk("construct", L, t), t, L)

    # ---- vectors
    def vobj(self, obj, t=None):
        if isinstance(obj, LP):
            return obj
        v = self.load(obj)
        path = (("tmp", self.count("tmp")),)
        self.write(path, v, t, quiet=True)
        return LP(path, t or "std::vector<?>")

    def vlen(self, o):
        v = self.st.store.get(o.path + ("#len",))
        if v is not None:
            return v
        x = self.st.store.get(o.path)
        if isinstance(x, Vec):
            return x.n
        return self.read(o.path, o.t if tinfo(o.t).k == "vec" else "std::vector<int>").n

    def setlen(self, o, n):
        p = o.path
        if p + ("#base",) not in self.st.store:
            self.st.store[p + ("#base",)] = self.initpath(p)
        self.st.store[p + ("#len",)] = n
        self._wtypes[p + ("#len",)] = "unsigned long"
        if self.wlog is not None:
            self.wlog.add(p + ("#len",))

    def m_vector(self, name, op, e, obj, args, L):
        if obj is None:
            return NotImplemented
        o = self.vobj(obj, strip(e.get("cls") or "std::vector<?>"))
        ti = tinfo(o.t)
        if ti.k not in ("vec", "arr"):
            ti = tinfo(strip(e.get("cls") or "")) if e.get("cls") else ti
            if ti.k == "vec":
                o = LP(o.path, ti.s, o.x)
        et = strip(ti.e) if ti.e else "?"
        from .engine import mkc
        if isinstance(self.st.store.get(o.path), Opq):
            # the container itself is unknown
            v = self.opaque(("unk", "vec", self.count("unk")), ti.s)
            self.write(o.path, v, ti.s, quiet=True)
        n = self.vlen(o)
        if op == "[]" or name == "at":
            i = self.scalar(self.load(args[0]))
            self.ev("index", o.path, i, n, L=L, at=name == "at")
            return self.elem(o, i, et)
        if name == "size":
            return n
        if name == "empty":
            return Bool(mkc(n, "=="))
        if name in ("begin", "cbegin"):
            return Iter(o.path, PL.ZERO)
        if name in ("end", "cend"):
            return Iter(o.path, n)
        if name in ("rbegin", "rend", "crbegin", "crend"):
            return Iter(o.path, n - 1 if "begin" in name else P(-1), True)
        if name in ("back", "front"):
            i = n - 1 if name == "back" else PL.ZERO
            self.ev("index", o.path, i, n, L=L)
            return self.elem(o, i, et)
        if name in ("push_back", "emplace_back"):
            if name == "push_back":
                a = args[0]
                mv = isinstance(a, LP) and (a.x or (e.get("pm") or [0])[0] == 3)
                v = self.take(LP(a.path, a.t, True), et, L) if mv and tinfo(et).k in ("sptr", "vec") else self.rv(a)
                self.setlen(o, n + 1)
                self.write(o.path + (("[]", n),), self.coerce(v, et), et, L)
            else:
                self.setlen(o, n + 1)
                self.construct_vals(o.path + (("[]", n),), et, args, L)
            self.ev("push", o.path, n, L=L)
            return self.elem(o, n, et) if name == "emplace_back" else None
        if name == "pop_back":
            self.ev("pop", o.path, n, L=L)
            p = o.path + (("[]", n - 1),)
            self.drop(p)
            self.st.store.pop(p, None)
            self.setlen(o, n - 1)
            return None
        if name == "clear":
            self.ev("clear", o.path, n, L=L)
            self.write(o.path, Vec(PL.ZERO, (("zero",),), ()), ti.s, L)
            return None
        if name == "reserve" or name == "shrink_to_fit":
            return None
        if name == "capacity":
            c = Poly.atom(("capacity", o.path, n), True, True)
            self.st.facts.assume(mkc(n - c, "<="))
            return c
        if name in ("resize", "assign"):
            m = self.load(args[0])
            if not isinstance(m, Poly):
                return NotImplemented
            fill = self.load(args[1]) if len(args) > 1 else None
            self.ev("resize", o.path, m, n, L=L)
            if (n.is_const() and n.cval() == 0) or name == "assign":
                base = (("zero",),) if fill is None or isinstance(fill, Opq) else (("fill", fill),)
                self.write(o.path, Vec(m, base, ()), ti.s, L)
            elif m == n:
                pass
            else:
                old = self.read(o.path, ti.s)
                d = self.st.facts.decide(mkc(m - n, "<="))
                if d is True:
                    self.setlen(o, m)
                else:
                    self.write(o.path, Vec(m, (("resized", old),), ()), ti.s, L)
            return None
        if name == "erase":
            it = self.load(args[0])
            if len(args) == 1 and isinstance(it, Iter):
                self.ev("erase", o.path, it.pos, L=L)
                old = self.read(o.path, ti.s)
                self.write(o.path, Vec(n - 1, (("erase", old, it.pos),), ()), ti.s, L)
                return Iter(o.path, it.pos)
            if len(args) == 2:
                it2 = self.load(args[1])
                if isinstance(it, Iter) and isinstance(it2, Iter):
                    self.ev("eraser", o.path, it.pos, it2.pos, L=L)
                    old = self.read(o.path, ti.s)
                    self.write(o.path, Vec(n - (it2.pos - it.pos), (("eraser", old, it.pos, it2.pos),), ()), ti.s, L)
                    return Iter(o.path, it.pos)
            return NotImplemented
        if name == "insert":
            it = self.load(args[0])
            rest = [self.load(a) for a in args[1:]]
            self.ev("insert", o.path, it, tuple(rest), L=L)
            old = self.read(o.path, ti.s)
            if len(rest) == 2 and all(isinstance(r, Iter) for r in rest) and rest[0].cont == rest[1].cont:
                src = self.read(rest[0].cont, ti.s)
                m = n + rest[1].pos - rest[0].pos
                self.write(o.path, Vec(m, (("inserted", old, it, src, rest[0].pos, rest[1].pos),), ()), ti.s, L)
                return it
            if len(rest) == 1 and isinstance(it, Iter):
                if it.pos == n:
                    self.setlen(o, n + 1)
                    self.write(o.path + (("[]", n),), self.coerce(rest[0], et), et, L)
                else:
                    self.write(o.path, Vec(n + 1, (("inserted", old, it, rest[0]),), ()), ti.s, L)
                return it
            return NotImplemented
        if name == "swap" and args:
            a, b = self.load(o), self.load(args[0])
            self.write(o.path, b, ti.s, L)
            self.assign(args[0], a, L)
            return None
        if name == "data":
            return Ptr(o.path, True)
        if op in ("==", "!="):
            return Bool(self.compare(op, self.load(o), self.load(args[0])))
        return NotImplemented

    def elem(self, o, i, et):
        p = o.path + (("[]", i),)
        b = self.st.store.get(o.path + ("#base",))
        if b and isinstance(b, tuple) and b and isinstance(b[0], tuple) and b[0][0] == "fill" and p not in self.st.store:
            if not any(len(k) > len(p) and k[:len(p)] == p for k in self.st.store):
                w = self.wlog
                self.wlog = None
                self.write(p, b[0][1], et, quiet=True)
                self.wlog = w
        return LP(p, et)

    # ---- smart pointers
    def m_sptr(self, name, op, e, obj, args, L):
        if obj is None:
            return NotImplemented
        v = self.load(obj, L)
        if not isinstance(v, Ptr):
            return NotImplemented
        if name == "get":
            return v
        if op == "->":
            return v
        if op == "*":
            t = tinfo(obj.t).e if isinstance(obj, LP) and tinfo(obj.t).k == "sptr" else strip(e.get("rt", "?"))
            return self.deref(v, t, L)
        if name == "operator bool":
            return Bool(self.nonnull(v))
        if name == "reset" or op == "=":
            new = Ptr(None)
            if args:
                a = args[0]
                if isinstance(a, LP) and (tinfo(a.t).k == "sptr"):
                    sh = "shared" in (obj.t if isinstance(obj, LP) else "")
                    new = self.load(a) if (sh and not a.x) else self.take(LP(a.path, a.t, True), a.t, L)
                else:
                    new = self.load(a)
                if not isinstance(new, Ptr):
                    new = Ptr(None) if isinstance(new, Poly) else Ptr((("unkp", self.count("unk")), "*"))
            self.ev("reset", obj.path if isinstance(obj, LP) else None, v, new, L=L)
            if isinstance(obj, LP):
                self.write(obj.path, new, obj.t, L)
            return obj if op == "=" else None
        if name == "release":
            if isinstance(obj, LP):
                self.write(obj.path, Ptr(None), obj.t, L)
            self.ev("release", obj.path if isinstance(obj, LP) else None, v, L=L)
            return v
        if name == "swap" and args:
            w = self.load(args[0])
            self.assign(obj, w, L)
            self.assign(args[0], v, L)
            return None
        if op in ("==", "!=") and args:
            return Bool(self.compare(op, v, self.load(args[0])))
        if name == "use_count" or name == "unique":
            return self.opaque(("use_count", v, self.count("uc")), e["t"])
        return NotImplemented

    # ---- iterators
    def m_iter(self, name, op, e, obj, args, L):
        if obj is None:
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.free_op(op, e, args, L)
            if op in ("+", "-"):
                a, b = self.load(args[0]), self.load(args[1])
                if isinstance(b, Iter) and isinstance(a, Poly):
                    a, b = b, a
                return self.arith(op, a, b, e.get("t"), L)
            return NotImplemented
        v = self.load(obj, L)
        if not isinstance(v, Iter):
            return NotImplemented
        if op == "*":
            return self.deref(v, strip(e.get("rt", "?")), L)
        if op == "->":
            self.ev("itderef", v, L=L)
            return Ptr(v.cont + (("[]", v.pos),), True)
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            if v.rev:
                d = -d
            new = Iter(v.cont, v.pos + d, v.rev)
            self.assign(obj, new, L)
            return v if args else obj
        if op in ("+", "-"):
            b = self.load(args[0])
            if v.rev and isinstance(b, Poly):
                b = -b
            return self.arith(op, v, b, e.get("t"), L)
        if op in ("+=", "-="):
            new = self.arith(op[0], v, self.load(args[0]), e.get("t"), L)
            self.assign(obj, new, L)
            return obj
        if op == "[]":
            i = self.scalar(self.load(args[0]))
            return LP(v.cont + (("[]", v.pos + i),), strip(e.get("rt", "?")))
        if op in ("==", "!=") and args:
            return Bool(self.compare(op, v, self.load(args[0])))
        if name == "base":
            return v
        return NotImplemented

    # ---- Eigen
    def lview(self, obj):
        """(path, type, element indices, rows, cols) of a matrix lvalue"""
        if isinstance(obj, LP):
            ti = tinfo(obj.t)
            if ti.k in MATK:
                return obj.path, obj.t, list(range(ti.r * ti.c)), ti.r, ti.c
            m = self.st.store.get(obj.path)
            if isinstance(m, Mat):
                return obj.path, obj.t, list(range(m.r * m.c)), m.r, m.c
        if isinstance(obj, LV) and obj.r:
            return obj.path, obj.t, list(obj.idx), obj.r, obj.c
        return None

    def sub(self, obj, i, j, r, c):
        """block lvalue or value"""
        lv = self.lview(obj)
        if lv:
            path, t, idx, R, C = lv
            if i + r > R or j + c > C or i < 0 or j < 0:
                self.ev("matindex", (R, C), (i, j, r, c))
                return self.unk("block-range")
            return LV(path, t, [idx[(j + b) * R + i + a] for b in range(c) for a in range(r)], r, c)
        m = self.load(obj)
        if isinstance(m, Mat) and i + r <= m.r and j + c <= m.c:
            return m.block(i, j, r, c)
        return self.unk("block")

    def coef(self, obj, i, j=None):
        """element lvalue or value"""
        lv = self.lview(obj)
        m = None
        if lv:
            path, t, idx, R, C = lv
        else:
            m = self.load(obj)
            if not isinstance(m, Mat):
                return self.unk("coef", 0, "double")
            R, C = m.r, m.c
        if j is None:
            k = i
        else:
            if i >= R or j >= C:
                self.ev("matindex", (R, C), (i, j))
                return self.unk("coef-range", 0, "double")
            k = j * R + i
        if k >= R * C or k < 0:
            self.ev("matindex", (R, C), (k,))
            return self.unk("coef-range", 0, "double")
        if lv:
            return LV(path, t, [idx[k]], 0, 0)
        return m.e[k]

    def cint(self, v):
        v = self.load(v)
        if isinstance(v, Bool):
            v = self.scalar(v)
        if isinstance(v, Poly) and v.is_const() and v.cval().denominator == 1:
            return int(v.cval())
        return None

    def ptrpath(self, v):
        """path of what a pointer value or decayed array points to"""
        if isinstance(v, LP) and tinfo(v.t).k == "arr":
            return v.path
        v = self.load(v)
        return v.path if isinstance(v, Ptr) else None

    def minverse(self, m):
        n = m.r
        if m.kind in ("tf", "se2"):
            d = n - 1
            R, T = m.block(0, 0, d, d), m.block(0, d, d, 1)
            Ri = R.T() if (m.kind == "se2" or self.orthonormal(R)) else self.minverse(R)
            t = (Ri @ T).map(lambda x: -x)
            from .engine import embed
            r = embed(Ri)
            r = Mat(n, n, [t.e[i] if j == d and i < d else r.at(i, j) for j in range(n) for i in range(n)], m.kind)
            return r
        if m.kind == "rot" or (n <= 3 and self.orthonormal(m)):
            return Mat(n, n, m.T().e, m.kind)
        if n == 1:
            return Mat(1, 1, [PL.inv(m.e[0])])
        if all(not m.at(i, j).t for i in range(n) for j in range(n) if i != j):
            return Mat(n, n, [PL.inv(m.at(i, i)) if i == j else PL.ZERO for j in range(n) for i in range(n)])
        # inverse of an inverse
        a = m.e[0].as_atom()
        if a and a[0] == "minv" and all(x.as_atom() == ("minv", a[1], i, j) for j in range(n) for i, x in
                                        ((i, m.at(i, j)) for i in range(n))):
            return a[1]
        k = m.m()
        if n == 2:
            det = self.mdet(k)
            return Mat.of([[k.at(1, 1) / det, -k.at(0, 1) / det], [-k.at(1, 0) / det, k.at(0, 0) / det]])
        sym = all(k.at(i, j) == k.at(j, i) for i in range(n) for j in range(i))
        return Mat(n, n, [Poly.atom(("minv", k, min(i, j) if sym else i, max(i, j) if sym else j)) for j in range(n) for i in range(n)])

    def orthonormal(self, m):
        if m.r != m.c:
            return False
        if sum(len(x.t) for x in m.e) > 40:
            return False
        p = m.T() @ m
        i = ident(m.r)
        return p == i

    def mdet(self, m):
        if m.kind in ("tf", "se2", "rot"):
            return PL.ONE
        n = m.r
        if n == 1:
            return m.e[0]
        if n == 2:
            return m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)
        if n == 3 and all(len(x.t) <= 2 for x in m.e):
            a = m.at
            return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
                    + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))
        return Poly.atom(("det", m.m()))

    def m_eigen(self, name, op, cls, e, obj, args, L):
        if cls == "CommaInitializer":
            return self.comma(name, op, obj, args, L)
        if op == "<<" and obj is None and len(args) == 2:
            # stream insertion of a matrix
            a0 = args[0]
            return self.stream("<<", e, a0, [args[1]], L)
        if op == "<<":
            return self.comma(name, "<<", obj, args, L)
        if cls == "SelfAdjointEigenSolver":
            v = self.load(obj)
            d = mdims(strip(e.get("cls", "")))
            if d is None:
                t = tinfo(strip(e.get("cls", "?")))
                d = (t.r, t.c) if t.r else None
            m = v.key[1] if isinstance(v, Opq) and v.key[:1] == ("eig",) else v
            if d is None and isinstance(m, Mat):
                d = (m.r, m.c)
            if d and name == "eigenvalues":
                ev = [Poly.atom(("eval", m, i)) for i in range(d[0])]
                from .engine import mkc
                for x, y in zip(ev, ev[1:]):     # the solver returns them in increasing order
                    c = mkc(x - y, "<=")
                    if self.st.facts.decide(c) is None:
                        self.st.facts.assume(c)
                return Mat(d[0], 1, ev)
            if d and name == "eigenvectors":
                return Mat(d[0], d[0], [Poly.atom(("evec", m, i, j)) for j in range(d[0]) for i in range(d[0])])
            if name == "compute":
                if isinstance(obj, LP):
                    self.write(obj.path, Opq("eig", self.load(args[0])), obj.t, L, quiet=True)
                return obj
            if name == "info":
                return self.opaque(("eiginfo", m), e["t"])
            return NotImplemented
        if obj is None:
            if op and len(args) == 2:
                return self.free_op(op, e, args, L)
            if op == "-" and len(args) == 1:
                v = self.load(args[0])
                return v.map(lambda x: -x) if isinstance(v, Mat) else NotImplemented
            # statics
            d = mdims(e.get("cls") or "") or mdims(e.get("t") or e.get("rt") or "")
            if name in ("Zero", "Identity", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "Unit"):
                if args and name in ("Zero", "Ones", "Identity") or d is None:
                    cs = [self.cint(a) for a in args]
                    if args and all(c is not None for c in cs) and name != "Constant":
                        d = (cs[0], cs[1] if len(cs) > 1 else 1)
                    elif d is None:
                        return self.unk("static-" + name, L)
                r, c = d
                if name == "Zero":
                    return zeros(r, c)
                if name == "Ones":
                    return Mat(r, c, [PL.ONE] * (r * c))
                if name == "Constant":
                    return Mat(r, c, [self.scalar(self.load(args[-1]))] * (r * c))
                if name == "Identity":
                    tk = tinfo(strip(e.get("t") or "")).k
                    return ident(r, c, tk if tk in ("tf", "rot") else "m")
                i = {"UnitX": 0, "UnitY": 1, "UnitZ": 2}.get(name)
                if i is None:
                    i = self.cint(args[-1])
                return Mat(r, c, [PL.ONE if k == i else PL.ZERO for k in range(r * c)])
            return NotImplemented
        # views and passthroughs
        if name in ("noalias", "eval", "matrix", "array", "real", "derived", "cast", "affine", "template cast", "conjugate", "const_cast_derived",
                    "selfadjointView", "triangularView"):
            v = obj
            if name in ("cast",):
                return self.load(obj)
            if name in ("array", "matrix"):
                lv = self.lview(obj)
                if lv and name == "matrix":
                    return LV(lv[0], lv[1], lv[2], lv[3], lv[4])
                m = self.load(obj)
                if isinstance(m, Mat):
                    return Mat(m.r, m.c, m.e, "arr" if name == "array" else "m")
                return m
            if name in ("selfadjointView", "triangularView"):
                # a view of a constant matrix is a value
                k = re.search(name + r"<(\d+)U?>\(\) const", e.get("f") or "")
                m = self.load(obj) if k else None
                if not isinstance(m, Mat) or m.r != m.c:
                    return NotImplemented
                mode = int(k.group(1))
                low, unit, strict = bool(mode & 1), bool(mode & 4), bool(mode & 8)
                def el(i, j):
                    inside = i >= j if low else i <= j
                    if i == j and name == "triangularView":
                        return PL.ONE if unit else PL.ZERO if strict else m.at(i, i)
                    return m.at(i, j) if inside else m.at(j, i) if name == "selfadjointView" else PL.ZERO
                return Mat(m.r, m.c, [el(i, j) for j in range(m.c) for i in range(m.r)])
            return v
        if op in ("()", "[]") or name in ("coeff", "coeffRef"):
            ii = [self.cint(a) for a in args]
            if any(i is None for i in ii):
                m = self.load(obj)
                self.note("symbolic-coef@%s" % L)
                return self.unk("coef", L, "double")
            return self.coef(obj, *ii)
        if name in ("x", "y", "z", "w") and not args:
            m = self.load(obj)
            return self.coef(obj, "xyzw".index(name))
        if cls == "Transform" or (isinstance(obj, (LP, LV)) and not isinstance(obj, LV) and tinfo(obj.t).k == "tf"):
            r = self.m_transform(name, op, e, obj, args, L)
            if r is not NotImplemented:
                return r
        if cls == "Translation":
            m = self.load(obj)
            if op == "*":
                return self.arith("*", m, self.load(args[0]), None, L)
            if name in ("translation", "vector"):
                return m.block(0, m.r - 1, m.r - 1, 1)
            if name == "inverse":
                return self.minverse(m)
        if cls in ("Rotation2D", "AngleAxis", "RotationBase"):
            m = self.load(obj)
            if not isinstance(m, Mat):
                return NotImplemented
            if name in ("toRotationMatrix", "matrix"):
                return m.m()
            if name == "angle":
                if m.r == 2:
                    return PL.atan2(m.at(1, 0), m.at(0, 0))
                return self.unk("angle", L, "double")
            if name == "inverse":
                return Mat(m.r, m.c, m.T().e, "rot")
            if op == "*":
                return self.arith("*", m, self.load(args[0]), None, L)
            if name == "smallestAngle":
                return PL.atan2(m.at(1, 0), m.at(0, 0))
            return NotImplemented
        if name in ("head", "tail", "segment", "block", "col", "row", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner",
                    "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
            return self.m_block(name, e, obj, args, L)
        lv = self.lview(obj)
        if name in ("setZero", "setIdentity", "setOnes", "setConstant", "fill"):
            m = self.load(obj)
            if not isinstance(m, Mat):
                return NotImplemented
            if name == "setZero":
                v = zeros(m.r, m.c)
            elif name == "setIdentity":
                v = ident(m.r, m.c)
            elif name == "setOnes":
                v = Mat(m.r, m.c, [PL.ONE] * len(m.e))
            else:
                v = Mat(m.r, m.c, [self.scalar(self.load(args[-1]))] * len(m.e))
            self.assign(obj, v, L)
            return obj
        if op in ("+=", "-=", "*=", "/="):
            m = self.load(obj)
            v = self.arith(op[0], m, self.load(args[0]), None, L)
            if not isinstance(v, Mat):
                v = self.unk("matop", L, obj.t) if isinstance(obj, LP) else self.unk("matop", L)
            self.assign(obj, v, L)
            return obj
        if name == "normalize":
            m = self.load(obj)
            n = PL.sqrt(sum((x * x for x in m.e), PL.ZERO))
            self.assign(obj, m.scale(PL.inv(n)), L)
            return None
        if name in ("rows", "cols", "size"):
            m = self.load(obj)
            if isinstance(m, Mat):
                return P({"rows": m.r, "cols": m.c, "size": m.r * m.c}[name])
            return NotImplemented
        if name == "data":
            if isinstance(obj, LP):
                return Ptr(obj.path, True)
            return NotImplemented
        m = self.load(obj)
        if name in ("resize", "conservativeResize", "rowwise", "colwise"):
            return NotImplemented
        if name == "value" or name.startswith("operator ") and tinfo(e.get("t") or "?").k == "float":
            return self.scalar(m)
        if not isinstance(m, Mat):
            return NotImplemented
        if op in ("+", "-", "*", "/"):
            if not args:
                return m.map(lambda x: -x)
            return self.arith(op, m, self.load(args[0]), None, L)
        if op in ("==", "!="):
            return Bool(self.compare(op, m, self.load(args[0])))
        if name == "transpose" or name == "adjoint":
            if lv:
                path, t, idx, R, C = lv
                return LV(path, t, [idx[j * R + i] for i in range(R) for j in range(C)], C, R)
            return m.T()
        if name == "inverse":
            return self.minverse(m)
        if name == "determinant":
            return self.mdet(m)
        if name == "norm":
            return PL.sqrt(sum((x * x for x in m.e), PL.ZERO))
        if name == "squaredNorm":
            return sum((x * x for x in m.e), PL.ZERO)
        if name == "normalized":
            n = PL.sqrt(sum((x * x for x in m.e), PL.ZERO))
            return m.scale(PL.inv(n))
        if name in ("dot", "cross", "cwiseProduct", "cwiseQuotient") and args:
            o = self.load(args[0])
            if not isinstance(o, Mat) or len(o.e) != len(m.e):
                return NotImplemented
            if name == "dot":
                return sum((x * y for x, y in zip(m.e, o.e)), PL.ZERO)
            if name == "cwiseProduct":
                return Mat(m.r, m.c, [x * y for x, y in zip(m.e, o.e)])
            if name == "cwiseQuotient":
                return Mat(m.r, m.c, [x / y for x, y in zip(m.e, o.e)])
            if len(m.e) == 3:
                a, b = m.e, o.e
                return Mat(3, 1, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
        if name in ("cwiseAbs", "abs"):
            return Mat(m.r, m.c, [PL.pabs(x) for x in m.e], m.kind)
        if name in ("cwiseInverse", "inverse") or (name == "inverse" and m.kind == "arr"):
            return Mat(m.r, m.c, [PL.inv(x) for x in m.e], m.kind)
        if name in ("square",):
            return Mat(m.r, m.c, [x * x for x in m.e], m.kind)
        if name in ("exp", "log", "sqrt", "floor", "ceil", "cwiseSqrt") and not args:
            f = {"exp": lambda x: PL.func("exp", x), "log": lambda x: PL.func("log", x), "sqrt": PL.sqrt, "cwiseSqrt": PL.sqrt,
                 "floor": PL.floor, "ceil": PL.ceil}[name]
            return Mat(m.r, m.c, [f(x) for x in m.e], m.kind)
        if name == "sum":
            return sum(m.e, PL.ZERO)
        if name == "prod":
            r = PL.ONE
            for x in m.e:
                r = r * x
            return r
        if name == "mean":
            return sum(m.e, PL.ZERO) / P(len(m.e))
        if name == "trace":
            return sum((m.at(i, i) for i in range(m.r)), PL.ZERO)
        if name in ("maxCoeff", "minCoeff"):
            from .engine import mkc
            if args:
                return NotImplemented
            es = list(dict.fromkeys(m.e))
            # leave out what another entry is known to dominate
            keep = []
            for k, x in enumerate(es):
                for j, y in enumerate(es):
                    if j == k:
                        continue
                    d = self.st.facts.decide(mkc(x - y if name == "maxCoeff" else y - x, "<="))
                    if d is True and (j > k or self.st.facts.decide(mkc(y - x if name == "maxCoeff" else x - y, "<=")) is not True):
                        break
                else:
                    keep.append(x)
            es = keep or es[:1]
            if len(es) > 2:
                return Poly.atom((name, tuple(sorted(es, key=PL.vid))))
            r = es[0]
            for x in es[1:]:
                c = self.compare("<", r, x) if name == "maxCoeff" else self.compare("<", x, r)
                if self.branch(c):
                    r = x
            return r
        if name == "diagonal":
            n = min(m.r, m.c)
            if lv:
                path, t, idx, R, C = lv
                return LV(path, t, [idx[i * R + i] for i in range(n)], n, 1)
            return Mat(n, 1, [m.at(i, i) for i in range(n)])
        if name == "asDiagonal":
            n = len(m.e)
            return Mat(n, n, [m.e[i] if i == j else PL.ZERO for j in range(n) for i in range(n)])
        if name in ("hasNaN", "allFinite", "isZero", "isApprox", "isIdentity"):
            from .engine import mkc
            vals = tuple(self.load(a) for a in args)
            if name in ("hasNaN", "allFinite") and all(finite(x) for x in m.e):
                return Bool(name == "allFinite")
            prec = vals[-1] if vals and isinstance(vals[-1], Poly) else P(PL.Q(1, 10**5 if "float" in (e.get("ot") or "") else 10**12))
            if name == "isZero" and prec is not None:
                for x in m.e:
                    if not self.branch(mkc(x - prec, "<=")) or not self.branch(mkc(P(0) - x - prec, "<=")):
                        return Bool(False)
                return Bool(True)
            if name == "isApprox" and vals and isinstance(vals[0], Mat) and len(vals[0].e) == len(m.e):
                n2 = lambda xs: sum((x * x for x in xs), P(0))
                d, lim = n2([x - y for x, y in zip(m.e, vals[0].e)]), prec * prec
                return Bool(self.branch(mkc(d - lim * n2(m.e), "<=")) and self.branch(mkc(d - lim * n2(vals[0].e), "<=")))
            return Bool(("t", ("pred", name, m, vals), True))
        if name == "eulerAngles":
            return self.unk("eulerAngles", L, "Eigen::Matrix<double, 3, 1>")
        return NotImplemented

    def m_block(self, name, e, obj, args, L):
        cs = [self.cint(a) for a in args]
        d = blockdims(e.get("t") or "")
        lv = self.lview(obj)
        m = None
        if lv:
            R, C = lv[3], lv[4]
        else:
            m = self.load(obj)
            if not isinstance(m, Mat):
                return NotImplemented
            R, C = m.r, m.c
        if any(c is None for c in cs):
            return self.unk("block", L)
        vec = C == 1 or R == 1

        def seg(i, n):
            return self.sub(obj, i, 0, n, 1) if C == 1 else self.sub(obj, 0, i, 1, n)
        if name in ("head", "tail", "segment"):
            if name == "segment":
                n = cs[1] if len(cs) > 1 else d[0] if d else None
                return seg(cs[0], n) if n else NotImplemented
            n = cs[0] if cs else (max(d) if d else None)
            if n is None:
                return NotImplemented
            return seg(0 if name == "head" else R * C - n, n)
        if name == "col":
            return self.sub(obj, 0, cs[0], R, 1)
        if name == "row":
            return self.sub(obj, cs[0], 0, 1, C)
        if name == "block":
            if len(cs) == 4:
                return self.sub(obj, cs[0], cs[1], cs[2], cs[3])
            if d and len(cs) == 2:
                return self.sub(obj, cs[0], cs[1], d[0], d[1])
            return NotImplemented
        if name.endswith("Corner"):
            r, c = (cs[0], cs[1]) if len(cs) == 2 else d if d else (None, None)
            if r is None:
                return NotImplemented
            return self.sub(obj, 0 if name.startswith("top") else R - r, 0 if "Left" in name else C - c, r, c)
        if name in ("topRows", "bottomRows"):
            r = cs[0] if cs else d[0] if d else None
            return self.sub(obj, 0 if name == "topRows" else R - r, 0, r, C) if r else NotImplemented
        if name in ("leftCols", "rightCols"):
            c = cs[0] if cs else d[1] if d else None
            return self.sub(obj, 0, 0 if name == "leftCols" else C - c, R, c) if c else NotImplemented
        return NotImplemented

    def m_transform(self, name, op, e, obj, args, L):
        m = self.load(obj)
        if not isinstance(m, Mat) or m.kind not in ("tf",) and not (isinstance(obj, LP)):
            return NotImplemented
        d = m.r - 1
        if name in ("linear", "rotation", "affine"):
            if name == "affine":
                return self.sub(obj, 0, 0, d, d + 1)
            if name == "rotation":
                return Mat(d, d, m.block(0, 0, d, d).e)
            return self.sub(obj, 0, 0, d, d)
        if name == "translation":
            return self.sub(obj, 0, d, d, 1)
        if name == "inverse":
            return self.minverse(Mat(m.r, m.c, m.e, "tf"))
        if name == "setIdentity":
            self.assign(obj, ident(m.r, None, "tf"), L)
            return None
        if op == "*":
            return self.arith("*", Mat(m.r, m.c, m.e, "tf"), self.load(args[0]), None, L)
        if op == "*=":
            v = self.arith("*", Mat(m.r, m.c, m.e, "tf"), self.load(args[0]), None, L)
            if isinstance(v, Mat):
                self.assign(obj, v, L)
            return obj
        if name in ("rotate", "prerotate", "translate", "pretranslate"):
            a = self.load(args[0])
            from .engine import embed
            M = Mat(m.r, m.c, m.e, "tf")
            if "rotate" in name:
                if isinstance(a, Poly) and d == 2:
                    a = rot2(a)
                if not isinstance(a, Mat) or a.r != d:
                    return NotImplemented
                E = embed(Mat(a.r, a.c, a.e))
            else:
                if not isinstance(a, Mat) or len(a.e) != d:
                    return NotImplemented
                rows = [[(1 if i == j else 0) for j in range(d)] + [a.e[i]] for i in range(d)]
                E = Mat.of(rows + [[0] * d + [1]], "tf")
            r = E @ M if name.startswith("pre") else M @ E
            self.assign(obj, Mat(r.r, r.c, r.e, "tf"), L)
            return obj
        return NotImplemented

    def comma(self, name, op, obj, args, L):
        if op == "<<":
            if isinstance(obj, (LP, LV)) and self.lview(obj):
                c = Comma(obj)
            else:
                return NotImplemented
        else:
            c = obj
        if name == "finished":
            return c.lv
        if not isinstance(c, Comma):
            return NotImplemented
        lv = self.lview(c.lv)
        path, t, idx, R, C = lv
        v = self.load(args[0])
        if isinstance(v, (Poly, Bool)):
            v = Mat(1, 1, [self.scalar(v)])
        if not isinstance(v, Mat):
            v = Mat(1, 1, [Poly.atom(("unk", "comma", self.count("unk")))])
            self.note("comma@%s" % L)
        if c.col >= C:
            c.row += c.bh
            c.col = 0
            c.bh = v.r
        if op == "<<":
            c.bh = v.r
        if c.row + v.r > R or c.col + v.c > C:
            self.note("comma-range@%s" % L)
            return c
        self.assign(self.sub(c.lv, c.row, c.col, v.r, v.c), v, L)
        c.col += v.c
        return c

    # ---- g2o
    def m_g2o(self, name, op, cls, e, obj, args, L):
        t = strip(e.get("rt") or "?")
        if cls == "SE2":
            return self.m_se2(name, op, e, obj, args, L)
        if cls == "g2o" and name == "normalize_theta":
            return PL.wrap(self.scalar(self.load(args[0])))
        if obj is None or not isinstance(obj, LP):
            return NotImplemented
        o = obj.path
        if name in ("measurement", "information", "estimate", "error") and not args:
            ft = t
            if name == "estimate" and tinfo(t).k == "cls":
                ft = t
            return LP(o + ("_" + name,), ft)
        if name in ("setEstimate", "setInformation") or (name == "setMeasurement" and len(args) == 1):
            fn = "_" + name[3:].lower()
            a = self.load(args[0])
            pt = args[0].t if isinstance(args[0], LP) else "?"
            if isinstance(a, Mat):
                pt = {("se2"): "g2o::SE2"}.get(a.kind, "Eigen::Matrix<double, %d, %d>" % (a.r, a.c))
            elif isinstance(a, Poly):
                pt = "double"
            self.write(o + (fn,), a, pt, L)
            if name == "setMeasurement" and isinstance(a, Mat) and a.kind == "se2" and cls == "EdgeSE2":
                self.write(o + ("_inverseMeasurement",), self.minverse(a), "g2o::SE2", L)
            return None
        if name in ("vertex",) and len(args) == 1 and cls == "Edge":
            i = self.scalar(self.load(args[0]))
            return self.read(o + ("_vertices", ("[]", i)), "g2o::HyperGraph::Vertex *")
        if name == "setVertex":
            i = self.scalar(self.load(args[0]))
            self.write(o + ("_vertices", ("[]", i)), self.load(args[1]), "g2o::HyperGraph::Vertex *", L)
            return None
        if name == "setToOrigin" and len(o) == 1 and o[0] == "this":
            c = [f for f in self.prog.funcs.values() if f["n"] == "setToOriginImpl" and f.get("b") and not f["ps"]]
            if len(c) == 1:
                return self.inline(c[0], e, obj, [])
        if name == "computeError" and cls in ("EdgeSE2", "EdgeSE2PointXY"):
            self.ev("call", "g2o::%s::computeError" % cls, (), L=L, obj=obj, inl=False, base=True)
            if self.lazy_err:
                n = 3 if cls == "EdgeSE2" else 2
                self.write(o + ("_error",), Mat(n, 1, [Poly.atom(("g2oerr", o, k)) for k in range(n)]), "Eigen::Matrix<double, %d, 1>" % n, L)
                return None
            x = self.read(o + ("_vertices", ("[]", PL.ZERO)), "g2o::VertexSE2 *")
            y = self.read(o + ("_vertices", ("[]", PL.ONE)), "g2o::VertexSE2 *")
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.path and y.path:
                X = self.read(x.path + ("_estimate",), "g2o::SE2")
                if cls == "EdgeSE2":
                    Y = self.read(y.path + ("_estimate",), "g2o::SE2")
                    IM = self.read(o + ("_inverseMeasurement",), "g2o::SE2")
                    if all(isinstance(m, Mat) for m in (X, Y, IM)):
                        dd = Mat(3, 3, (IM @ (self.minverse(X) @ Y)).e, "se2")
                        self.write(o + ("_error",), self.se2vec(dd), "Eigen::Matrix<double, 3, 1>", L)
                        return None
                else:
                    Y = self.read(y.path + ("_estimate",), "Eigen::Matrix<double, 2, 1>")
                    Z = self.read(o + ("_measurement",), "Eigen::Matrix<double, 2, 1>")
                    if all(isinstance(m, Mat) for m in (X, Y, Z)):
                        pr = self.matop("*", self.minverse(X), Y)
                        self.write(o + ("_error",), pr - Z, "Eigen::Matrix<double, 2, 1>", L)
                        return None
            n = 3 if cls == "EdgeSE2" else 2
            self.write(o + ("_error",), self.opaque(("unk", "err"), "Eigen::Matrix<double, %d, 1>" % n), None, L)
            return None
        if name == "linearizeOplus" and cls in ("EdgeSE2", "EdgeSE2PointXY"):
            self.ev("call", "g2o::%s::linearizeOplus" % cls, (), L=L, obj=obj, inl=False, base=True)
            for fl in ("_jacobianOplusXi", "_jacobianOplusXj"):
                self.write(o + (fl,), Opq("baselin", cls, fl), None, L)
            return None
        if name == "chi2":
            er = self.st.store.get(o + ("_error",))
            om = self.st.store.get(o + ("_information",))
            n = {"EdgeSE2": 3, "EdgeSE2PointXY": 2}.get(cls)
            d = re.search(r"BaseEdge<(\d+)", e.get("cls") or "")
            n = int(d.group(1)) if d else n
            if n:
                er = er or self.read(o + ("_error",), "Eigen::Matrix<double, %d, 1>" % n)
                om = om or self.read(o + ("_information",), "Eigen::Matrix<double, %d, %d>" % (n, n))
                if isinstance(er, Mat) and isinstance(om, Mat):
                    return (er.T() @ om @ er).e[0]
            return Poly.atom(("chi2", o, self.count("chi2")))
        if name == "getMeasurementData" and cls in ("EdgeSE2", "EdgeSE2PointXY"):
            p = self.ptrpath(args[0])
            if p is not None:
                m = self.read(o + ("_measurement",), "g2o::SE2" if cls == "EdgeSE2" else "Eigen::Matrix<double, 2, 1>")
                if isinstance(m, Mat):
                    es = self.se2vec(m).e if cls == "EdgeSE2" else m.e
                    for i, x in enumerate(es):
                        self.write(p + (("[]", P(i)),), x, "double", L)
                    return Bool(True)
        if name == "setMeasurementData" and cls == "EdgeSE2":
            p = self.ptrpath(args[0])
            if p is not None:
                xs = [self.read(p + (("[]", P(i)),), "double") for i in range(3)]
                m = Mat(3, 3, rigid2(*xs).e, "se2")
                self.write(o + ("_measurement",), m, "g2o::SE2", L)
                self.write(o + ("_inverseMeasurement",), self.minverse(m), "g2o::SE2", L)
                return Bool(True)
        if name == "setMeasurementData" and cls == "EdgeSE2PointXY":
            p = self.ptrpath(args[0])
            if p is not None:
                xs = [self.read(p + (("[]", P(i)),), "double") for i in range(2)]
                self.write(o + ("_measurement",), Mat(2, 1, xs), "Eigen::Matrix<double, 2, 1>", L)
                return Bool(True)
        if name == "resize" and cls == "BaseVariableSizedEdge":
            self.ev("g2oresize", o, self.load(args[0]), L=L)
            return None
        if name == "id":
            return Poly.atom(("vid", o), True)
        return NotImplemented

    def se2vec(self, m):
        return Mat(3, 1, [m.at(0, 2), m.at(1, 2), PL.atan2(m.at(1, 0), m.at(0, 0))])

    def m_se2(self, name, op, e, obj, args, L):
        m = self.load(obj) if obj is not None else None
        if not isinstance(m, Mat):
            return NotImplemented
        m = Mat(3, 3, m.e, "se2")
        if name == "inverse":
            return self.minverse(m)
        if name == "toVector":
            return self.se2vec(m)
        if name == "toIsometry":
            return Mat(3, 3, m.e, "tf")
        if name == "translation":
            return m.block(0, 2, 2, 1)
        if name == "rotation":
            return Mat(2, 2, m.block(0, 0, 2, 2).e, "rot")
        if op == "*":
            return self.arith("*", m, self.load(args[0]), None, L)
        if op == "[]":
            i = self.cint(args[0])
            if i is not None:
                return self.se2vec(m).e[i]
        if op == "*=":
            self.assign(obj, self.arith("*", m, self.load(args[0]), None, L), L)
            return obj
        if name in ("fromVector",):
            self.assign(obj, self.se2_ctor([self.load(args[0])], L), L)
            return None
        if name == "setTranslation":
            v = self.load(args[0])
            if isinstance(v, Mat):
                self.assign(obj, Mat(3, 3, m.set(0, 2, v).e, "se2"), L)
                return None
        if name == "setRotation":
            v = self.load(args[0])
            if isinstance(v, Mat) and v.r == 2:
                self.assign(obj, Mat(3, 3, m.set(0, 0, v).e, "se2"), L)
                return None
        return NotImplemented


def finite(x):
    """no division, logarithm or unknown value: finite for every (real) input"""
    def ok(a):
        return not (isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in ("log", "pow", "exp", "div", "sqrt", "unk", "tan", "acos", "asin", "call", "pred", "max", "min"))
    if not isinstance(x, Poly):
        return False
    return all(k > 0 for m in x.t for _, k in m) and not PL.mentions(x, lambda a: not ok(a))
