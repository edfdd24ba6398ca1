"""Abstract values."""
from . import poly as PL
from .poly import Poly, P


class Mat:
    """matrix of scalar normal forms, column major like Eigen"""
    __slots__ = ("r", "c", "e", "kind")

    def __init__(self, r, c, e, kind="m"):
        self.r, self.c, self.e, self.kind = r, c, tuple(e), kind

    def parts(self):
        return list(self.e)

    def rebuild(self, xs):
        return Mat(self.r, self.c, xs, self.kind)

    def at(self, i, j):
        return self.e[j * self.r + i]

    def __eq__(self, o):
        return isinstance(o, Mat) and (self.r, self.c, self.e) == (o.r, o.c, o.e)

    def __hash__(self):
        return hash((self.r, self.c, self.e))

    def __repr__(self):
        return "[" + "; ".join(", ".join(repr(self.at(i, j)) for j in range(self.c)) for i in range(self.r)) + "]"

    @staticmethod
    def of(rows, kind="m"):
        r, c = len(rows), len(rows[0])
        return Mat(r, c, [P(rows[i][j]) for j in range(c) for i in range(r)], kind)

    def m(self):
        return Mat(self.r, self.c, self.e)

    def map(self, f):
        return Mat(self.r, self.c, [f(x) for x in self.e])

    def T(self):
        return Mat(self.c, self.r, [self.at(i, j) for i in range(self.r) for j in range(self.c)])

    def __add__(self, o):
        return Mat(self.r, self.c, [a + b for a, b in zip(self.e, o.e)])

    def __sub__(self, o):
        return Mat(self.r, self.c, [a - b for a, b in zip(self.e, o.e)])

    def scale(self, s):
        return Mat(self.r, self.c, [a * s for a in self.e])

    def __matmul__(self, o):
        e = []
        for j in range(o.c):
            for i in range(self.r):
                s = PL.ZERO
                for k in range(self.c):
                    s = s + self.at(i, k) * o.at(k, j)
                e.append(s)
        return Mat(self.r, o.c, e)

    def block(self, i, j, r, c):
        return Mat(r, c, [self.at(i + a, j + b) for b in range(c) for a in range(r)])

    def set(self, i, j, m):
        e = list(self.e)
        for b in range(m.c):
            for a in range(m.r):
                e[(j + b) * self.r + i + a] = m.at(a, b)
        return Mat(self.r, self.c, e, self.kind)


def ident(n, m=None, kind="m"):
    m = m or n
    return Mat(n, m, [PL.ONE if i == j else PL.ZERO for j in range(m) for i in range(n)], kind)


def zeros(r, c):
    return Mat(r, c, [PL.ZERO] * (r * c))


def rot2(a):
    s, c = PL.sincos(P(a))
    return Mat.of([[c, -s], [s, c]], "rot")


def rigid2(x, y, a, kind="tf"):
    s, c = PL.sincos(P(a))
    return Mat.of([[c, -s, x], [s, c, y], [0, 0, 1]], kind)


class Ptr:
    """pointer: path of the pointee, None when null; sure = known not null"""
    __slots__ = ("path", "sure")

    def __init__(self, path, sure=False):
        self.path, self.sure = path, sure

    def parts(self):
        return [self.path]

    def rebuild(self, xs):
        return Ptr(xs[0], self.sure)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.path == o.path

    def __hash__(self):
        return hash(("ptr", self.path))

    def __repr__(self):
        return "null" if self.path is None else "&" + PL.show_path(self.path)


class Bool:
    """cond is True/False or a condition tuple (see engine)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def parts(self):
        return [self.c]

    def rebuild(self, xs):
        return Bool(xs[0])

    def __eq__(self, o):
        return isinstance(o, Bool) and self.c == o.c

    def __hash__(self):
        return hash(("bool", self.c))

    def __repr__(self):
        return "Bool(%s)" % (showc(self.c),)


class Iter:
    """iterator into a container"""
    __slots__ = ("cont", "pos", "rev")

    def __init__(self, cont, pos, rev=False):
        self.cont, self.pos, self.rev = cont, pos, rev

    def parts(self):
        return [self.cont, self.pos]

    def rebuild(self, xs):
        return Iter(xs[0], xs[1], self.rev)

    def __eq__(self, o):
        return isinstance(o, Iter) and (self.cont, self.pos) == (o.cont, o.pos)

    def __hash__(self):
        return hash(("iter", self.cont, self.pos))

    def __repr__(self):
        return "Iter(%s,%r)" % (PL.show_path(self.cont), self.pos)


class Rec:
    """record rvalue"""
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, dict(f)

    def parts(self):
        return [self.f[k] for k in sorted(self.f)]

    def rebuild(self, xs):
        return Rec(self.t, dict(zip(sorted(self.f), xs)))

    def __eq__(self, o):
        return isinstance(o, Rec) and self.f == o.f

    def __hash__(self):
        return hash(("rec", tuple(sorted((k, hash(v)) for k, v in self.f.items()))))

    def __repr__(self):
        return "{" + ", ".join("%s=%r" % kv for kv in sorted(self.f.items())) + "}"


class Vec:
    """container rvalue: length, name of the unknown rest, known entries"""
    __slots__ = ("n", "base", "ent")

    def __init__(self, n, base, ent):
        self.n, self.base, self.ent = n, base, tuple(ent)   # ent: ((relative path), value)

    def parts(self):
        return [self.n, self.base, self.ent]

    def rebuild(self, xs):
        return Vec(*xs)

    def __eq__(self, o):
        return isinstance(o, Vec) and (self.n, self.base, self.ent) == (o.n, o.base, o.ent)

    def __hash__(self):
        return hash(("vec", self.n, self.base, self.ent))

    def __repr__(self):
        return "Vec(n=%r, base=%s, %r)" % (self.n, PL.show_path(self.base), self.ent)


class Opq:
    """a value of a type the analysis does not look into"""
    __slots__ = ("key", "h")
    TAB = {}

    def __new__(cls, *key):
        # terms are shared, so that comparing and hashing deep ones stays cheap
        try:
            o = cls.TAB.get(key)
        except TypeError:
            o = None
        if o is None:
            o = object.__new__(cls)
            o.key = key
            o.h = None
            try:
                cls.TAB[key] = o
            except TypeError:
                pass
        return o

    def parts(self):
        return [self.key]

    def rebuild(self, xs):
        return Opq(*xs[0])

    def __eq__(self, o):
        return self is o or isinstance(o, Opq) and hash(self) == hash(o) and self.key == o.key

    def __hash__(self):
        if self.h is None:
            self.h = hash(("opq", self.key))
        return self.h

    def __repr__(self):
        return "Opq%r" % (self.key,)


class Fn:
    __slots__ = ("node", "frame", "this", "key")

    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this
        self.key = ("fn", node.get("L"))

    def parts(self):
        return []

    def rebuild(self, xs):
        return self

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Uninit:
    def __repr__(self):
        return "UNINIT"

    def parts(self):
        return []

    def rebuild(self, xs):
        return self


UNINIT = Uninit()


# lvalues
class LP:
    """lvalue at a path, with its type"""
    __slots__ = ("path", "t", "x")

    def __init__(self, path, t, x=False):
        self.path, self.t, self.x = path, t, x

    def __repr__(self):
        return "LP(%s)" % PL.show_path(self.path)


class LV:
    """view of elements of a matrix at a path"""
    __slots__ = ("path", "t", "idx", "r", "c", "kind", "trans")

    def __init__(self, path, t, idx, r, c, kind="m"):
        self.path, self.t, self.idx, self.r, self.c, self.kind = path, t, tuple(idx), r, c, kind

    def __repr__(self):
        return "LV(%s%r)" % (PL.show_path(self.path), self.idx)


class Comma:
    __slots__ = ("lv", "row", "col", "bh")

    def __init__(self, lv):
        self.lv, self.row, self.col, self.bh = lv, 0, 0, 1


def showc(c):
    if c is True or c is False:
        return str(c)
    if c[0] == "c":
        return "%s %s 0" % (PL.show(c[1]), c[2])
    if c[0] == "t":
        return ("" if c[2] else "not ") + PL.show_atom(c[1])
    return str(c)


def key(v):
    """hashable key of a value for use inside atoms"""
    return v


def has(v, pred):
    """does a value contain an atom satisfying pred"""
    if v is None:
        return False
    if v is UNINIT:
        return False
    return PL.mentions(v, pred)
