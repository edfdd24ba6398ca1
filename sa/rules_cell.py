"""NDT cell: occupancy, conditioning, statistics of the points, ray updates."""
import struct
from fractions import Fraction

from .rules import *
from .rules_pose import args_of
from .rules_reg import val, rets, symat, eig, diag, m3, F

UNITS = ["cell"]
C = "slamuk::NDTCell"
Q = PL.Q


def f32(x):
    return P(Q(Fraction(repr(struct.unpack("f", struct.pack("f", x))[0]))))


HIT, MISS, NOISE = f32(0.405465108), f32(-0.2), f32(0.01)
MAXN = P(1000000000)
ONE = P(1)


class Cell:
    """the fields of a cell, found through its public accessors"""

    def __init__(self, R, p):
        self.R, self.p = R, p
        self.n = {}
        for g, k in (("getMean", "mean"), ("getCov", "cov"), ("getICov", "icov"), ("getCentroid", "cent")):
            f = R.one(p, C + "::" + g, 0)
            for o in rets(R, p, f):
                r = o.val[0] if isinstance(o.val, tuple) else None
                pa = getattr(r, "path", None)
                if pa and len(pa) == 2 and pa[0] == "this":
                    self.n[k] = pa[1]
        for g, k in (("points", "pts"), ("getOccupancyRaw", "occ")):
            f = R.one(p, C + "::" + g, 0)
            for o in rets(R, p, f):
                a = val(o).as_atom() if isinstance(val(o), Poly) else None
                if a and a[0] == "in" and len(a[1]) == 2:
                    self.n[k] = a[1][1]
        R.one(p, C + "::hasGaussian", 0)
        r = rec_of(p, C)
        if not r:
            raise Anchor(C)
        self.n["gauss"] = field(r[0], "gaussian_", t=lambda t: t == "bool")
        self.n["vec"] = field(r[0], "points_vec_", t=lambda t: t.startswith("std::vector"))
        for k, d in (("mean", "mean_"), ("cov", "cov_"), ("icov", "icov_"), ("cent", "centroid_"), ("pts", "points_"), ("occ", "occup_")):
            self.n.setdefault(k, d)
        self.ty = {f["n"]: strip(f["t"]) for f in r[0]["fields"]}
        for k, x in self.n.items():
            if x not in self.ty:
                raise Anchor("%s::%s" % (C, x))
        self.E = Engine(p)

    def init(self, k, base="this"):
        if k in ("cov", "icov"):
            return symat((base, k), 3)
        return self.E.init_value((base, self.n[k]), self.ty[self.n[k]])

    def gauss(self, yes, base="this"):
        return ("t", ("in", (base, self.n["gauss"])), yes)

    def size(self):
        """number of points collected since the last update"""
        return Poly.atom(("size", ("in", ("this", self.n["vec"]))), True, True)

    def pre(self, *bases):
        def go(E):
            for b in ("this",) + bases:
                for k in ("cov", "icov"):
                    E.st.store[(b, self.n[k])] = self.init(k, b)
        return go

    def run(self, f, *bases, **kw):
        outs = self.R.run(self.p, f, **dict({"pre": self.pre(*bases)}, **kw))
        return [o for o in outs or () if o.kind == "ret" and not any(nan(g) for g in o.facts.lst)]

    def now(self, o, k, base="this"):
        v = at(o, base, self.n[k])
        return self.init(k, base) if v is None else v

    def flag(self, o):
        """does the cell have a distribution afterwards, or None when the flag was not written"""
        v = at(o, "this", self.n["gauss"])
        if v is None:
            return self.known(o)
        return v

    def known(self, o):
        for y in (True, False):
            if o.facts.decide(self.gauss(y)) is True:
                return Bool(y)
        return None

    def range(self, base="this"):
        x = self.init("occ", base)
        return [mkc(x - ONE, "<="), mkc(P(-1) - x, "<=")]

    def fixed(self, rule, f, o, ks, conds=()):
        for k in ks:
            if k == "vec":
                n = at(o, "this", self.n["vec"], "#len")
                if n is not None:
                    self.R.same(rule, f, o, n, self.vecsize(), "number of collected points", conds)
                continue
            v = at(o, "this", self.n[k])
            if v is not None:
                self.R.same(rule, f, o, v, self.init(k), "%s stays as it was" % k, conds)
            else:
                self.R.proved(rule, f, "%s stays as it was" % k)

    def vecsize(self):
        return vsize(self)

    def clamped(self, rule, f, o, delta, what, conds=()):
        """occupancy' = occupancy + delta kept within [-1, 1]"""
        g = self.now(o, "occ")
        x = self.init("occ") + align(delta, (tuple(o.facts.lst), g))
        for cs, w in (([mkc(ONE - x, "<")], ONE), ([mkc(x + ONE, "<")], P(-1)), ([mkc(x - ONE, "<="), mkc(P(-1) - x, "<=")], x)):
            self.R.same(rule, f, o, g, w, what, list(conds) + self.range() + cs)


def nan(g):
    return g[0] == "t" and g[2] and isinstance(g[1], tuple) and g[1] and g[1][0] == "isnan"


def align(want, used):
    """want written with the logarithms that occur in the partition where those are the same terms"""
    have = []

    def look(a):
        if isinstance(a, tuple) and a and a[0] == "log" and a not in have:
            have.append(a)
        return False
    PL.mentions(used, look)
    mp = {}
    for i in want.atoms():
        a = PL.atom_of(i)
        if a[0] == "log" and a not in have:
            for b in have:
                if PL._same_atom(a, b):
                    mp[i] = PL.aid(b)
                    break
    return PL.rename(want, mp) if mp else want


_VS = {}


def vsize(c):
    """what size() of the collected points is before a call"""
    if c.p not in _VS:
        f = c.R.one(c.p, C + "::addPoint", 1)
        for o in c.run(f):
            n = at(o, "this", c.n["vec"], "#len")
            if isinstance(n, Poly):
                _VS[c.p] = n - ONE
    return _VS.get(c.p)


def solved(o, c):
    """matrices whose eigen decomposition the partition used"""
    out = []

    def look(a):
        if isinstance(a, tuple) and a and a[0] in ("eval", "evec") and isinstance(a[1], Mat) and not any(veq(a[1], m) for m in out):
            out.append(a[1])
        return False
    PL.mentions(tuple(o.facts.lst), look)
    for k in ("cov", "icov"):
        v = at(o, "this", c.n[k])
        if v is not None:
            PL.mentions(v, look)
    return out


def lower(m):
    return Mat(6, 1, [m.at(i, j) for i in range(3) for j in range(i + 1)])


def methods(c, R):
    """public operations that may change a cell: (function, other operands)"""
    p = c.p
    out = [(f, ()) for f in R.need(p, C + "::computeGaussian", 0)]
    out += [(f, ()) for f in R.need(p, C + "::updateOccupancy", 3)]
    out += [(f, ()) for f in R.need(p, C + "::transform", 1)]
    out += [(f, (("p", f["ps"][0]["n"]),)) for f in R.need(p, C + "::operator+=", 1)]
    return out


def ctors(p):
    return [f for f in p.funcs.values() if f.get("ctor") and not f["ps"] and bare(f.get("cls") or "") == C and f.get("b") is not None]


# ---------------------------------------------------------------- occupancy
def n01(R):
    p = program(UNITS)
    c = Cell(R, p)
    lim = lambda v: (mkc(v - ONE, "<="), mkc(P(-1) - v, "<="))
    for f, bs in methods(c, R):
        for o in c.run(f, *bs):
            v = c.now(o, "occ")
            pre = c.range()
            for b in bs:
                pre = pre + c.range(b)
            for w in lim(v):
                R.holds("N01.range", f, o, w, "occupancy stays within [-1,1]", pre)
    cs = ctors(p)
    if not cs:
        raise Anchor(C + " constructor")
    for f in cs:
        for o in rets(R, p, f):
            v = at(o, "this", c.n["occ"])
            R.same("N01.new", f, o, v, P(0), "occupancy of a new cell is unknown")
    n = vsize(c)
    for f in R.need(p, C + "::computeGaussian", 0):
        for o in c.run(f):
            c.clamped("N01.hits", f, o, HIT * n, "occupancy grows by the log-odds of a hit for every new point")
    for f in R.need(p, C + "::operator+=", 1):
        b = ("p", f["ps"][0]["n"])
        x = c.init("pts", b)
        for o in c.run(f, b):
            use = [mkc(P(3) - x, "<="), c.gauss(True, b)]
            c.clamped("N01.merge", f, o, HIT * x, "merging adds the evidence of every point of the other cell", use + [c.gauss(True)])
            R.same("N01.copy", f, o, c.now(o, "occ"), c.init("occ", b), "a cell without a distribution takes the other's occupancy", use + [c.gauss(False)])
            for cs in ([mkc(x - P(2), "<=")], [c.gauss(False, b)]):
                R.same("N01.ignored", f, o, c.now(o, "occ"), c.init("occ"), "an unusable cell adds nothing", cs)
    for f in R.need(p, C + "::getOccupancy", 0):
        x = c.init("occ")
        for o in c.run(f):
            R.same("N01.percent", f, o, val(o), P(-1), "negative evidence reads as -1", [mkc(x, "<")])
            R.same("N01.percent", f, o, val(o), P(100), "full evidence reads as 100", [mkc(ONE - x, "<=")])
            R.same("N01.percent", f, o, val(o), F("floor", P(100) * x), "evidence in percent", [mkc(P(0) - x, "<="), mkc(x - ONE, "<")])
    for f in R.need(p, C + "::setOccupancy", 1):
        a = args_of(p, f)[0]
        for o in c.run(f):
            v = c.now(o, "occ")
            R.same("N01.set", f, o, v, P(-1), "negative percentage is unoccupied", [mkc(a, "<")])
            R.same("N01.set", f, o, v, ONE, "100 percent is fully occupied", [mkc(P(100) - a, "<=")])
            R.same("N01.set", f, o, v, a * P(Q(1, 100)), "percentage scaled to [0,1]", [mkc(P(0) - a, "<="), mkc(a - P(100), "<")])
            c.fixed("N01.set", f, o, ("mean", "cov", "icov", "pts", "cent"))


# ---------------------------------------------------------------- conditioning
def n02(R):
    p = program(UNITS)
    c = Cell(R, p)
    n = 0
    for f, bs in methods(c, R):
        merge = bool(bs)
        for o in c.run(f, *bs):
            fl = c.flag(o)
            cov, icov = at(o, "this", c.n["cov"]), at(o, "this", c.n["icov"])
            same = all(v is None or veq(v, c.init(k)) for k, v in (("cov", cov), ("icov", icov)))
            if same:
                if isinstance(fl, Bool) and fl.c is True:
                    R.holds("N02.keep", f, o, c.gauss(True), "a distribution appears only with a new covariance")
                elif fl is None:
                    R.proved("N02.keep", f, "the distribution is as before")
                else:
                    R.proved("N02.keep", f, "no new distribution")
                continue
            if merge and cov is not None and icov is not None and veq(cov, c.init("cov", bs[0])) and veq(icov, c.init("icov", bs[0])):
                R.proved("N02.copy", f, "covariance and inverse are the other cell's")
                R.holds("N02.copy", f, o, c.gauss(True, bs[0]), "only a cell with a distribution is taken over")
                continue
            ms = solved(o, c)
            if len(ms) != 1:
                if isinstance(fl, Bool) and fl.c is False:
                    R.proved("N02.none", f, "no distribution afterwards")
                elif cov is not None and clean(cov) and clean(tuple(o.facts.lst)) and not ms:
                    R.violation("N02.unchecked", f, "the covariance is replaced without its eigenvalues being examined", o.L)
                else:
                    R.undecided("N02.matrix", f, "%d eigen decompositions" % len(ms))
                continue
            n += 1
            m = ms[0]
            ev, V = eig(m)
            z = [mkc(P(0) - e, "<=") for e in ev[:2]] + [mkc(P(0) - ev[2], "<")]
            for k, cs in (("the smallest", [mkc(ev[0], "<")]), ("the second", [mkc(ev[1], "<")])):
                R.same("N02.invalid", f, o, fl, Bool(False), "no distribution when %s eigenvalue is negative" % k, cs)
            R.same("N02.invalid", f, o, fl, Bool(False), "no distribution when no eigenvalue is positive", [mkc(ev[2], "<=")])
            if merge:
                R.same("N02.empty", f, o, fl, Bool(False), "no distribution in space believed empty", [mkc(c.now(o, "occ"), "<")])
                z = z + [mkc(P(0) - c.now(o, "occ"), "<=")]
            for lo in range(4):
                cs, D = list(z), [None, None, ev[2]]
                for i in range(2):
                    low = lo >> i & 1
                    cs.append(mkc(P(100) * ev[i] - ev[2], "<") if low else mkc(ev[2] - P(100) * ev[i], "<="))
                    D[i] = ev[2] * P(Q(1, 100)) if low else ev[i]
                # a mere sign of the covariance decides: the distribution is kept
                R.same("N02.valid", f, o, fl, Bool(True), "a usable covariance gives a distribution", cs)
                want = Mat(3, 3, (V @ diag(D) @ V.T()).e)
                R.same("N02.clip", f, o, c.now(o, "cov"), want, "small eigenvalues are raised to a hundredth of the largest", cs)
                ic = c.now(o, "icov")
                cv = c.now(o, "cov")
                inv = c.E.minverse(cv)
                R.same("N02.inverse", f, o, ic, inv, "the stored inverse belongs to the stored covariance", cs)
    if not n:
        R.undecided("N02.none", R.one(p, C + "::computeGaussian", 0), "no partition decomposes a covariance")


# ---------------------------------------------------------------- statistics
def n03(R):
    p = program(UNITS)
    c = Cell(R, p)
    n = vsize(c)
    i3 = ident(3)

    def pt(i, j=0):
        v = c.E.init_value(("this", c.n["vec"], ("[]", Poly.atom(("bound",), True, True))), "Eigen::Matrix<double, 3, 1>")
        return v.at(i, j)
    tot = lambda q: Poly.atom(("sum", n, q))
    S = Mat(3, 1, [tot(pt(i)) for i in range(3)])
    SS = [[tot(pt(i) * pt(j)) for j in range(3)] for i in range(3)]
    new = Mat(3, 1, [s * PL.inv(n) for s in S.e])

    def low(fn):
        return Mat(6, 1, [fn(i, j) for i in range(3) for j in range(i + 1)])
    shape = lambda i, j: (n - ONE) * PL.inv(n) * ((SS[i][j] + (ONE if i == j else P(0))) * PL.inv(n) - new.at(i, 0) * new.at(j, 0))

    def pooled(n1, m1, c1, n2, m2, c2):
        t = n1 + n2
        mean = Mat(3, 1, [(n1 * m1.at(i, 0) + n2 * m2.at(i, 0)) * PL.inv(t) for i in range(3)])
        d = [m1.at(i, 0) - m2.at(i, 0) for i in range(3)]
        cov = low(lambda i, j: ((n1 - ONE) * c1(i, j) + (n2 - ONE) * c2(i, j) + n1 * n2 * PL.inv(t) * d[i] * d[j]) * PL.inv(t - ONE))
        return mean, cov

    def capped(f, o, t, conds, rule):
        R.same(rule, f, o, c.now(o, "pts"), t, "number of points", conds + [mkc(t - MAXN, "<=")])
        R.same(rule, f, o, c.now(o, "pts"), MAXN, "number of points is limited", conds + [mkc(MAXN - t, "<")])

    def matrix(rule, f, o, want, conds, what):
        fa = o.facts.copy()
        try:
            for k in conds:
                fa.assume(k)
        except Infeasible:
            return
        ms = solved(o, c)
        if len(ms) != 1:
            R.undecided(rule, f, "%s: %d eigen decompositions" % (what, len(ms)))
            return
        R.same(rule, f, o, lower(ms[0]), want, what, conds)
    n1, m1, c1 = c.init("pts"), c.init("mean"), c.init("cov")
    pos = [mkc(ONE - n1, "<=")]
    for f in R.need(p, C + "::computeGaussian", 0):
        hits = c.init("occ") + HIT * n
        rng = c.range()
        for o in c.run(f):
            for cs, w in (([mkc(n - P(5), "<=")], "fewer than 6 points"), ([mkc(hits, "<=")], "space believed empty")):
                cs = rng + cs
                R.same("N03.few", f, o, c.flag(o), Bool(False), w + ": no distribution", cs)
                R.same("N03.few", f, o, c.now(o, "pts"), n, w + ": number of points", cs)
                ln = at(o, "this", c.n["vec"], "#len")
                if ln is not None:
                    R.same("N03.few", f, o, ln, n, w + ": the points are kept", cs)
            ok = rng + [mkc(P(6) - n, "<="), mkc(P(0) - hits, "<")]
            a = ok + [c.gauss(False)]
            R.same("N03.first", f, o, c.now(o, "mean"), new, "mean of the points", a)
            R.same("N03.first", f, o, c.now(o, "pts"), n, "number of points", a)
            matrix("N03.first", f, o, low(shape), a, "covariance of the points")
            b = ok + pos + [c.gauss(True)]
            mean, cov = pooled(n1, m1, lambda i, j: c1.at(i, j), n, new, shape)
            R.same("N03.pooled", f, o, c.now(o, "mean"), mean, "mean of all points", b)
            matrix("N03.pooled", f, o, cov, b, "covariance of all points")
            capped(f, o, n1 + n, b, "N03.pooled")
            ln = at(o, "this", c.n["vec"], "#len")
            R.same("N03.consumed", f, o, n if ln is None else ln, P(0), "points are used once", ok)
            c.fixed("N03.centroid", f, o, ("cent",))
    for f in R.need(p, C + "::operator+=", 1):
        b = ("p", f["ps"][0]["n"])
        n2, m2, c2 = c.init("pts", b), c.init("mean", b), c.init("cov", b)
        for o in c.run(f, b):
            for cs in ([mkc(n2 - P(2), "<=")], [c.gauss(False, b)]):
                c.fixed("N03.ignored", f, o, ("mean", "cov", "icov", "pts", "cent", "occ"), cs)
                fl = at(o, "this", c.n["gauss"])
                if fl is not None:
                    for y in (True, False):
                        R.same("N03.ignored", f, o, fl, Bool(y), "distribution stays as it was", cs + [c.gauss(y)])
            use = [mkc(P(3) - n2, "<="), c.gauss(True, b)]
            mean, cov = pooled(n1, m1, lambda i, j: c1.at(i, j), n2, m2, lambda i, j: c2.at(i, j))
            a = use + pos + [c.gauss(True)]
            R.same("N03.merged", f, o, c.now(o, "mean"), mean, "mean of both cells", a)
            believed = [mkc(P(0) - c.init("occ") - HIT * n2, "<=")] + c.range()
            matrix("N03.merged", f, o, cov, a + believed, "covariance of both cells")
            capped(f, o, n1 + n2, a, "N03.merged")
            z = use + [c.gauss(False)]
            for k in ("mean", "cov", "icov", "pts"):
                R.same("N03.copied", f, o, c.now(o, k), c.init(k, b), "a cell without a distribution takes the other's " + k, z)
            R.same("N03.copied", f, o, c.flag(o), Bool(True), "and has a distribution", z)


# ---------------------------------------------------------------- moving, exporting, new cells
def n04(R):
    p = program(UNITS)
    c = Cell(R, p)
    for f in R.need(p, C + "::transform", 1):
        t = args_of(p, f)[0]
        T = lambda i, j: t.at(i, j)
        m, cv = c.init("mean"), c.init("cov")
        mean = Mat(3, 1, [sum((T(i, k) * m.at(k, 0) for k in range(3)), T(i, 3)) for i in range(3)])
        Rm = Mat(3, 3, [T(i, j) for j in range(3) for i in range(3)])
        cov = lower(Rm @ cv @ Rm.T())
        for o in c.run(f):
            g, z = [c.gauss(True)], [c.gauss(False)]
            R.same("N04.mean", f, o, c.now(o, "mean"), mean, "the mean moves with the cell", g)
            ms = solved(o, c)
            if len(ms) == 1:
                R.same("N04.cov", f, o, lower(ms[0]), cov, "the covariance turns with the cell", g)
            elif o.facts.decide(c.gauss(False)) is not True:
                R.undecided("N04.cov", f, "%d eigen decompositions" % len(ms))
            c.fixed("N04.rest", f, o, ("occ", "pts", "cent", "vec"))
            c.fixed("N04.none", f, o, ("mean", "cov", "icov"), z)
            R.same("N04.none", f, o, c.flag(o), Bool(False), "a cell without a distribution stays without", z)
    for f in R.need(p, C + "::serialize", 0):
        for o in c.run(f):
            v = val(o)
            if not isinstance(v, Rec):
                R.undecided("N04.message", f, "message not interpreted")
                continue
            for x, k in (("mean_", "mean"), ("cov_", "cov"), ("occupancy_", "occ"), ("points_", "pts")):
                if x not in v.f:
                    raise Anchor("NDTCellMsg::" + x)
                R.same("N04.message", f, o, v.f[x], c.init(k), "message carries the " + k)
            c.fixed("N04.message", f, o, ("mean", "cov", "icov", "occ", "pts", "cent"))
    for f in ctors(p):
        for o in rets(R, p, f):
            for k, w in (("mean", zeros(3, 1)), ("cov", ident(3)), ("icov", ident(3)), ("pts", P(0))):
                R.same("N04.new", f, o, at(o, "this", c.n[k]), w, "%s of a new cell" % k)
            R.same("N04.new", f, o, at(o, "this", c.n["gauss"]), Bool(False), "a new cell has no distribution")
            ln = at(o, "this", c.n["vec"], "#len")
            if ln is not None:
                R.same("N04.new", f, o, ln, P(0), "a new cell has no points")
    for g, k in (("setMean", "mean"), ("setCentroid", "cent")):
        for f in R.need(p, C + "::" + g, 1):
            a = args_of(p, f)[0]
            for o in c.run(f):
                R.same("N04.set", f, o, c.now(o, k), a, g)
                c.fixed("N04.set", f, o, [x for x in ("mean", "cov", "icov", "occ", "pts", "cent") if x != k])
    for g, k in (("getMean", "mean"), ("getCov", "cov"), ("getICov", "icov"), ("getCentroid", "cent"), ("points", "pts"), ("getOccupancyRaw", "occ")):
        for f in R.need(p, C + "::" + g, 0):
            dflt = {"mean": "mean_", "cov": "cov_", "icov": "icov_", "cent": "centroid_", "pts": "points_", "occ": "occup_"}[k]
            for o in c.run(f):
                R.same("N04.get", f, o, val(o), c.init(k), g)
    for f in R.need(p, C + "::addPoint", 1):
        a = args_of(p, f)[0]
        n = vsize(c)
        for o in c.run(f):
            v = at(o, "this", c.n["vec"], ("[]", n)) if n is not None else None
            R.same("N04.point", f, o, v, a, "the point is appended")
            c.fixed("N04.point", f, o, ("mean", "cov", "icov", "occ", "pts", "cent"))


# ---------------------------------------------------------------- ray updates
DIRS = ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (-4, 0, 3), (0, -3, 4), (2, 3, 6), (1, -2, 2), (-6, 2, -3))


def n05(R):
    p = program(UNITS)
    c = Cell(R, p)
    for f in R.need(p, C + "::updateOccupancy", 3):
        _, e, n = args_of(p, f)
        ic = c.init("icov")
        occ = c.init("occ")
        b = [Poly.atom(("in", ("off", i))) for i in range(3)]
        m = Mat(3, 1, [e.at(i, 0) - b[i] for i in range(3)])
        dot = lambda u, v: sum((u[i] * ic.at(i, j) * v[j] for i in range(3) for j in range(3)), P(0))
        L1 = sum((F("abs", x) for x in b), P(0))
        near, far = mkc(L1 - P(Q(1, 100)), "<"), mkc(P(Q(1, 100)) - L1, "<=")

        def runs(d):
            """a ray from end - d to end through a cell whose mean is end - b"""
            def pre(E):
                c.pre()(E)
                E.st.store[("this", c.n["mean"])] = m
            return c.run(f, args=[Mat(3, 1, [e.at(i, 0) - d[i] for i in range(3)]), None, None], pre=pre)

        def delta(lik, dist2):
            thr = F("exp", P(Q(-1, 2)) * dist2 * PL.inv(NOISE * NOISE))
            l = P(Q(1, 10)) * lik * (ONE - thr) + P(Q(1, 2))
            return n * F("log", (ONE - l) * PL.inv(l))
        g = [c.gauss(True)]
        for o in runs([Poly.atom(("in", ("dir", i))) for i in range(3)]):
            c.clamped("N05.free", f, o, MISS * n, "a ray through a cell without a distribution lowers its occupancy", [c.gauss(False)])
            R.same("N05.free", f, o, c.flag(o), Bool(False), "a cell without a distribution gets none from a ray", [c.gauss(False)])
            c.clamped("N05.end", f, o, ONE, "a ray ending at the mean confirms the cell", g + [near])
            R.same("N05.end", f, o, c.flag(o), Bool(True), "a ray ending at the mean keeps the distribution", g + [near])
            R.same("N05.drop", f, o, c.flag(o), Bool(False), "a cell driven to empty loses its distribution", g + [far, mkc(c.now(o, "occ"), "<=")])
            R.same("N05.drop", f, o, c.flag(o), Bool(True), "a cell still believed occupied keeps its distribution", g + [far, mkc(P(0) - c.now(o, "occ"), "<")])
            R.same("N05.rest", f, o, c.now(o, "mean"), m, "mean stays as it was")
            c.fixed("N05.rest", f, o, ("cov", "icov", "pts", "cent", "vec"))
        r = Poly.atom(("in", ("length",)), False, True)
        free = [Poly.atom(("in", ("dir", i))) for i in range(3)]
        for u in DIRS + (None,):
            if len([x for x in R.obs if x["verdict"] != "proved"]) > 20:
                break
            d = [r * P(x) for x in u] if u else free
            for o in runs(d):
                if u and not any(u):
                    c.clamped("N05.point", f, o, P(0), "a ray without a direction changes nothing", g + [far])
                    continue
                v = [P(x) for x in u] if u else free
                sig, cross = dot(v, v), dot(v, b)
                best = F("exp", P(Q(-1, 2)) * (dot(b, b) - cross * cross * PL.inv(sig)))
                off = sum((x * x for x in v), P(0)) * cross * cross * PL.inv(sig) * PL.inv(sig)
                cs = g + [far, mkc(P(0) - (r if u else F("sqrt", sum((x * x for x in v), P(0)))), "<"), mkc(P(0) - sig, "<"), mkc(P(0) - sig * PL.inv(sum((x * x for x in v), P(0))), "<")]
                if u:
                    c.clamped("N05.flat", f, o, P(0), "a ray along which every point is equally likely changes nothing",
                              g + [far, mkc(P(0) - r, "<"), mkc(sig, "==")])
                c.clamped("N05.pass", f, o, delta(best, off), "a ray in direction %s lowers the occupancy by the likelihood of its best point" % (u,), cs)


RULES = {"N01": n01, "N02": n02, "N03": n03, "N04": n04, "N05": n05}
