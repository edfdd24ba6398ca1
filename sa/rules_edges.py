"""Optimizer edges: max-mixture edges, switchable edges and the switch variable."""
import re

from .rules import *
from .rules_pose import error_vec, jac, vecmat, args_of

MIX = {"mix": ("EdgeSE2Mixture", "EdgeSE2", 3), "mixxy": ("EdgeSE2PointXYMixture", "EdgeSE2PointXY", 2)}


def v3(n):
    return "Eigen::Matrix<double, %d, 1>" % n


def m3(n):
    return "Eigen::Matrix<double, %d, %d>" % (n, n)


class Mixture:
    """roles of the private fields of a mixture edge, found by what the code does with them"""

    def __init__(self, R, unit):
        self.R, self.unit = R, unit
        self.cls, self.base, self.n = MIX[unit]
        self.p = program([unit])
        p = self.p
        c = self.cls
        r = rec_of(p, c)
        if not r:
            raise Anchor(c)
        self.rec = r[0]
        self.comps = field(self.rec, "allEdges", t=lambda t: t.startswith("std::vector<") and "*" in t)
        self.count = field(self.rec, "numberComponents")
        self.best = self._best()
        dv = [f["n"] for f in self.rec["fields"] if strip(f["t"]).startswith("std::vector<double")]
        self.init = R.one(p, c + "::initializeComponents", 2)
        self.weights = "weights" if "weights" in dv else None
        outs = self.run(self.init, n=2) or []
        for o in outs[:1]:
            for x in dv:
                b = o.st.store.get(("this", x, "#base"))
                if b == (self.wpar(),):
                    self.weights = x
        self.dets = "determinants" if "determinants" in dv else next((x for x in dv if x != self.weights), None)
        if not self.weights or not self.dets:
            raise Anchor("component arrays of " + c)
        self.initouts = {}

    def wpar(self):
        return ("p", self.init["ps"][1]["n"])

    def epar(self):
        return ("p", self.init["ps"][0]["n"])

    def _best(self):
        from .rules_graph import getter
        try:
            return getter(self.R, self.p, self.cls + "::getBestComponent")
        except Anchor:
            return field(self.rec, "bestComponent")

    def run(self, f, n=None, store=None, old=2, facts=()):
        """f on an edge that already has `old` components (or the given state), called with n components"""
        def pre(E):
            E.lazy_err = True
            s = E.st.store
            if store is not None:
                s.update(store)
            elif old is not None:
                for x in (self.comps,):
                    s[("this", x, "#len")] = P(old)
                if getattr(self, "weights", None):
                    s[("this", self.weights, "#len")] = P(old)
                if getattr(self, "dets", None):
                    s[("this", self.dets, "#len")] = P(old)
                s[("this", self.count)] = P(old)
            if n is not None and f is self.init or f.get("ctor") and len(f["ps"]) == 2:
                for q in f["ps"]:
                    s[(("p", q["n"]), "#len")] = P(n)
            for c in facts:
                E.st.facts.assume(c)
        return self.R.run(self.p, f, pre=pre)

    def states(self, n):
        """states of an edge with n components, right after they were set"""
        if n not in self.initouts:
            self.initouts[n] = [o for o in self.run(self.init, n=n) or [] if o.kind == "ret"]
        return self.initouts[n]

    def reader(self, o):
        E = Engine(self.p)
        E.st = o.st.copy()
        return E

    def comp(self, o, j):
        """path of component j in state o"""
        E = self.reader(o)
        v = E.read(("this", self.comps, ("[]", P(j))), "g2o::%s *" % self.base)
        return v.path if isinstance(v, Ptr) else None

    def info(self, o, path):
        return self.reader(o).read(path + ("_information",), m3(self.n))

    def weight(self, o, j):
        return self.reader(o).read(("this", self.weights, ("[]", P(j))), "double")

    def likelihood(self, o, j):
        """negative log likelihood of component j"""
        c = self.comp(o, j)
        if c is None:
            return None
        inf = self.info(o, c)
        if not isinstance(inf, Mat):
            return None
        E = self.reader(o)
        d = E.mdet(E.minverse(inf))
        e = Mat(self.n, 1, [Poly.atom(("g2oerr", c, k)) for k in range(self.n)])
        return P(0) - PL.func("log", self.weight(o, j)) + P(PL.Q(1, 2)) * PL.func("log", d) + P(PL.Q(1, 2)) * (e.T() @ inf @ e).e[0]

    def ncomp(self, o):
        return at(o, "this", self.count)

    def scenarios(self):
        """(function, partitions, n) with n components after the call"""
        p, c, R = self.p, self.cls, self.R
        for n in (0, 1, 2, 3):
            yield self.init, self.states(n), n
        for f in p.funcs.values():
            if f.get("ctor") and f["n"] == c and len(f["ps"]) == 2 and f.get("b") is not None:
                for n in (1, 2):
                    yield f, self.run(f, n=n, old=None) or [], n
        for nm in ("computeError", "computeBestEdge", "linearizeOplus"):
            for f in R.need(p, c + "::" + nm, 0):
                for n in (0, 1, 3):
                    st = self.states(n)
                    if not st:
                        continue
                    # the state before: components set, some belief chosen earlier
                    s = dict(st[-1].st.store)
                    yield f, self.run(f, store=s) or [], n
        f = R.one(p, c + "::read", 1)
        rd = Poly.atom(("rd", 0), True)
        for n in (0, 1, 2):
            yield f, self.run(f, facts=[mkc(rd - n, "==")]) or [], n


def m01(R):
    for u in MIX:
        M = Mixture(R, u)
        big = P(10) ** 300 if hasattr(P(10), "__pow__") else None
        for f, outs, n in M.scenarios():
            for o in outs:
                if o.kind != "ret":
                    continue
                b = at(o, "this", M.best)
                if f is M.init or f.get("ctor") or f["n"] == "read":
                    pass
                if not isinstance(b, Poly) or not b.is_const():
                    R.check("M01.selected", f, False if uninit_in(b) or b is None and n else None,
                            "%d components: the best component is %s" % (n, "never set" if b is None else short(b)))
                    continue
                k = int(b.cval())
                if not 0 <= k < n:
                    R.check("M01.in-range", f, k < 0, "%d components: best component %d" % (n, k))
                    for j in range(n):
                        L = M.likelihood(o, j)
                        if L is not None:
                            R.holds("M01.none-likely", f, o, mkc(P(10 ** 300) - L, "<="), "no component is selected although component %d of %d is likely" % (j, n))
                    continue
                Lk = M.likelihood(o, k)
                for j in range(n):
                    if j == k:
                        continue
                    L = M.likelihood(o, j)
                    if L is None or Lk is None:
                        R.undecided("M01.best", f, "component not interpreted")
                        continue
                    R.holds("M01.best", f, o, mkc(Lk - L, "<="), "component %d of %d selected although %d is more likely" % (k, n, j))
                R.proved("M01.in-range", f, "%d components: best is %d" % (n, k))
                for e in sub(o.st.ev):
                    if e["k"] == "index" and e["a"][0][:1] == ("this",) and isinstance(e["a"][1], Poly) and e["a"][1].is_const():
                        i = int(e["a"][1].cval())
                        if e["a"][0][1:2] and e["a"][0][1] in (M.comps, M.weights, M.dets):
                            R.check("M01.exists", f, 0 <= i < n, "component %d of %d accessed" % (i, n), e.get("L"))
            # no partition may touch a component that does not exist, selected or not
        for f, outs, n in [(M.init, M.states(0), 0)]:
            for o in outs:
                for e in sub(o.st.ev):
                    if e["k"] == "index" and e["a"][0][:1] == ("this",) and e["a"][0][1] in (M.comps, M.weights, M.dets):
                        R.violation("M01.exists", f, "an edge without components accesses component %s" % short(e["a"][1]), e.get("L"))
        for f in R.need(M.p, M.cls + "::computeError", 0):
            # every component takes part, however many there are
            N = Poly.atom(("in", ("n",)), True, True)

            def pre(E):
                E.lazy_err = True
                for x in (M.comps, M.weights, M.dets):
                    E.st.store[("this", x, "#len")] = N
                E.st.store[("this", M.count)] = N
            for o in R.run(M.p, f, pre=pre) or ():
                lps = [e for e in o.st.ev if e["k"] == "loop" and any(
                    x["k"] == "index" and x["a"][0] == ("this", M.comps) for s in e["subs"] for x in sub(s["ev"]))]
                if not lps:
                    R.undecided("M01.all", f, "no loop over the components found")
                for e in lps:
                    idx = [x for s in e["subs"] for x in sub(s["ev"]) if x["k"] == "index" and x["a"][0] == ("this", M.comps)]
                    if any(isinstance(x["a"][1], Poly) and PL.equal(x["a"][1], e["I"]) for x in idx) and e["N"] is not None:
                        R.same("M01.all", f, o, e["N"], N, "number of components compared")
                    else:
                        R.undecided("M01.all", f, "loop over the components not interpreted")
        # what callers are told
        for f in R.need(M.p, M.cls + "::getBestComponent", 0):
            b0 = Poly.atom(("in", ("this", M.best)), True)
            for o in R.run(M.p, f) or ():
                if o.kind == "ret":
                    R.same("M01.told", f, o, o.val, b0, "getBestComponent tells the selected component")
                bad = [e for e in sub(o.st.ev) if e["k"] == "w" and e["a"][0][:1] == ("this",)]
                R.check("M01.told-only", f, not bad, "asking for the best component changes the edge", bad[0].get("L") if bad else None)
        for f in R.need(M.p, M.cls + "::getComponent", 1, opt=True):
            i = Poly.atom(("in", (("p", f["ps"][0]["n"]),)), True)
            for o in R.run(M.p, f) or ():
                if o.kind == "ret":
                    E = M.reader(o)
                    R.same("M01.component", f, o, o.val, E.read(("this", M.comps, ("[]", i)), "g2o::%s *" % M.base), "getComponent(i) is component i")
        # default construction
        for f in M.p.funcs.values():
            if f.get("ctor") and f["n"] == M.cls and len(f["ps"]) == 0 and f.get("b") is not None:
                for o in M.run(f, old=None) or ():
                    b = at(o, "this", M.best)
                    if b is None or uninit_in(b):
                        R.violation("M01.initial", f, "the best component of a new edge is indeterminate")
                    else:
                        R.holds("M01.initial", f, o, mkc(b + 1, "<="), "a new edge without components must not name a best component")


def m02(R):
    for u in MIX:
        M = Mixture(R, u)
        for f, outs, n in M.scenarios():
            if not (f is M.init or f.get("ctor") or f["n"] == "read"):
                continue
            for o in outs:
                if o.kind != "ret":
                    continue
                R.same("M02.count", f, o, M.ncomp(o), P(n), "number of components after setting %d" % n)
                for x, what in ((M.comps, "components"), (M.weights, "weights"), (M.dets, "determinants")):
                    R.same("M02.length", f, o, at(o, "this", x, "#len"), P(n), "number of %s after setting %d" % (what, n))
                E = M.reader(o)
                for j in range(n):
                    c = M.comp(o, j)
                    if c is None:
                        R.undecided("M02.component", f, "component %d not interpreted" % j)
                        continue
                    if f["n"] != "read":
                        par = ("p", f["ps"][0]["n"])
                        R.check("M02.component", f, patheq(c, (par, ("[]", P(j)), "*")) or (None if not clean(Ptr(c)) else False), "component %d is edge %d given" % (j, j))
                        w = E.init_value((("p", f["ps"][1]["n"]), ("[]", P(j))), "double")
                        R.same("M02.weight", f, o, M.weight(o, j), w, "weight of component %d" % j)
                    inf = M.info(o, c)
                    if isinstance(inf, Mat):
                        R.same("M02.determinant", f, o, E.read(("this", M.dets, ("[]", P(j))), "double"), E.mdet(E.minverse(inf)),
                               "determinant of the covariance of component %d" % j)
                    else:
                        R.undecided("M02.determinant", f, "information of component %d" % j)


def belief(R, M, rule, f, o, c, what):
    """this edge mirrors the edge at path c"""
    E = M.reader(o)
    for i in (0, 1):
        R.same(rule, f, o, E.read(("this", "_vertices", ("[]", P(i))), "g2o::HyperGraph::Vertex *"),
               E.read(c + ("_vertices", ("[]", P(i))), "g2o::HyperGraph::Vertex *"), "vertex %d of %s" % (i, what))
    t = "g2o::SE2" if M.n == 3 else v3(2)
    m = E.read(c + ("_measurement",), t)
    R.same(rule, f, o, E.read(("this", "_measurement"), t), m, "measurement of " + what)
    if M.n == 3:
        R.same(rule, f, o, E.read(("this", "_inverseMeasurement"), t), E.minverse(m), "inverse measurement of " + what)
    R.same(rule, f, o, E.read(("this", "_information"), m3(M.n)), E.read(c + ("_information",), m3(M.n)), "information of " + what)


def m03(R):
    for u in MIX:
        M = Mixture(R, u)
        st = M.states(3)
        if st:
            for f in R.need(M.p, M.cls + "::UpdateBelief", 1):
                for k in (0, 1, 2):
                    s = dict(st[-1].st.store)
                    outs = R.run(M.p, f, args=[P(k)], pre=lambda E: (E.st.store.update(s), setattr(E, "lazy_err", True)))
                    for o in outs or ():
                        belief(R, M, "M03.mirror", f, o, M.comp(o, k), "component %d" % k)
            for f in M.p.find(M.cls + "::getComponent", 1):
                for k in (0, 1, 2):
                    s = dict(st[-1].st.store)
                    for o in R.run(M.p, f, args=[P(k)], pre=lambda E: E.st.store.update(s)) or ():
                        v = o.val[1] if isinstance(o.val, tuple) else o.val
                        R.same("M03.component", f, o, v, Ptr(M.comp(o, k)), "component %d" % k)
        bq = "g2o::%s::" % M.base
        for f, outs, n in M.scenarios():
            for o in outs:
                if o.kind != "ret" or n == 0:
                    continue
                b = at(o, "this", M.best)
                if not isinstance(b, Poly) or not b.is_const() or not 0 <= b.cval() < n:
                    continue
                c = M.comp(o, int(b.cval()))
                if c is None:
                    R.undecided("M03.belief", f, "component not interpreted")
                    continue
                belief(R, M, "M03.belief", f, o, c, "the best component")
                # the error (and Jacobians) are evaluated after the belief was switched
                ev = list(sub(o.st.ev))
                last = max([i for i, e in enumerate(ev) if e["k"] == "w" and e["a"][0][:2] in (("this", "_measurement"), ("this", "_vertices"), ("this", "_information"), ("this", "_inverseMeasurement"))] or [-1])
                for nm in ["computeError"] + (["linearizeOplus"] if f["n"] == "linearizeOplus" else []):
                    ix = [i for i, e in enumerate(ev) if e["k"] == "call" and e["a"][0] == bq + nm and (e.get("obj") is None or getattr(e["obj"], "path", None) == ("this",))]
                    if not ix:
                        R.check("M03.evaluated", f, None if o.st.notes else False, "%s of the selected component is evaluated" % nm)
                    else:
                        R.check("M03.evaluated", f, max(ix) > last, "%s is evaluated for the selected component" % nm)


# ---------------------------------------------------------------- switch variable
def w01(R):
    p = program(["sw_vertex"])
    c = "VertexSwitchLinear"
    gx = R.one(p, c + "::x", 0)
    E0 = Engine(p)
    est = E0.init_value(("this", "_estimate"), "double")
    pops = p.find(c + "::pop")
    for o in R.run(p, gx) or ():
        v = o.val[1] if isinstance(o.val, tuple) else o.val
        if pops and not veq(v, est):
            R.undecided("W01.single-value", gx, "the class restores its value itself")
        else:
            # g2o assigns the estimate directly when it takes a step back
            R.same("W01.single-value", gx, o, v, est, "value of the switch variable")

    def xof(o):
        """value x() returns in the final state of o"""
        r = [q for q in (R.run(p, gx, pre=lambda E: E.st.store.update(o.st.store)) or []) if q.kind == "ret"]
        if len(r) != 1:
            return None
        return r[0].val[1] if isinstance(r[0].val, tuple) else r[0].val

    def both(rule, f, o, want, what):
        R.same(rule, f, o, at(o, "this", "_estimate"), want, "estimate after " + what)
        R.same(rule, f, o, xof(o), want, "value after " + what)
    for f in R.need(p, c + "::setEstimate", 1):
        a = args_of(p, f)[0]
        for o in R.run(p, f) or ():
            both("W01.set", f, o, a, "setEstimate")
    for f in R.need(p, c + "::setToOriginImpl", 0):
        for o in R.run(p, f) or ():
            both("W01.origin", f, o, P(0), "setToOrigin")
    for f in R.need(p, c + "::oplusImpl", 1):
        u = E0.init_value((("p", f["ps"][0]["n"]), "*"), "double")
        X = est + u
        for o in R.run(p, f) or ():
            for conds, want in (([mkc(X, "<")], P(0)), ([mkc(P(1) - X, "<")], P(1)), ([mkc(P(0) - X, "<="), mkc(X - 1, "<=")], X)):
                R.same("W01.step", f, o, at(o, "this", "_estimate"), want, "estimate after an increment", conds)
                R.same("W01.step", f, o, xof(o), want, "value after an increment", conds)
    for f in p.funcs.values():
        if f.get("ctor") and f["n"] == c and f.get("b") is not None and not f["ps"]:
            for o in R.run(p, f) or ():
                v = at(o, "this", "_estimate")
                if v is None:
                    R.undecided("W01.initial", f, "the base constructor decides")
                else:
                    both("W01.initial", f, o, P(0), "construction")


def se2val(E, path):
    return E.init_value(path, "g2o::SE2")


def se2angle(m):
    """angle of a symbolic SE2"""
    a = m.at(1, 0).as_atom()
    return a[1] if a and a[0] == "sin" else None


def w02(R):
    p = program(["sw_edge"])
    c = "EdgeSE2Switchable"
    r = rec_of(p, c)
    if not r:
        raise Anchor(c)
    inv = field(r[0], "_inverseMeasurement", t=lambda t: t == "g2o::SE2")
    E = Engine(p)

    def now(o, fld):
        v = at(o, "this", fld)
        return E.init_value(("this", fld), "g2o::SE2") if v is None else v
    for f in R.need(p, c + "::setMeasurement", 1):
        m = args_of(p, f)[0]
        for o in R.run(p, f) or ():
            R.same("W02.inverse", f, o, now(o, "_measurement"), m, "measurement")
            R.same("W02.inverse", f, o, now(o, inv), E.minverse(m), "inverse of the measurement")
    for f in R.need(p, c + "::read", 1):
        for o in R.run(p, f) or ():
            m = at(o, "this", "_measurement")
            if o.kind != "ret" or not isinstance(m, Mat):
                continue
            R.same("W02.inverse", f, o, now(o, inv), E.minverse(m), "inverse of the measurement read")
    for f in p.funcs.values():
        if f.get("ctor") and f["n"] == c and f.get("b") is not None and not f["ps"]:
            for o in R.run(p, f) or ():
                v = at(o, "this", inv)
                if v is None or uninit_in(v):
                    R.undecided("W02.initial", f, "inverse measurement left to its own constructor")
                else:
                    R.same("W02.initial", f, o, v, Mat(3, 3, ident(3).e, "se2"), "inverse of the default measurement")
                g = [e for e in o.st.ev if e["k"] == "g2oresize"]
                if g:
                    R.same("W02.vertices", f, o, g[-1]["a"][1], P(3), "number of vertices of a switchable edge")
                else:
                    R.undecided("W02.vertices", f, "number of vertices not set here")
    x1, x2 = (se2val(E, ("this", "_vertices", ("[]", P(i)), "*", "_estimate")) for i in (0, 1))
    s = E.init_value(("this", "_vertices", ("[]", P(2)), "*", "_estimate"), "double")
    im = se2val(E, ("this", inv))
    d = Mat(3, 3, (im @ (E.minverse(x1) @ x2)).e, "se2")
    err = E.se2vec(d)
    for f in R.need(p, c + "::computeError", 0):
        for o in R.run(p, f) or ():
            v = at(o, "this", "_error")
            for i in range(3):
                R.same("W02.error", f, o, v.e[i] if isinstance(v, Mat) and len(v.e) == 3 else None, s * err.e[i], "component %d of the switched error" % i)
    t1, ti = se2angle(x1), se2angle(im)
    if t1 is None or ti is None:
        R.undecided("W02.jacobian", c, "symbolic pose")
        return
    s1, c1 = PL.sincos(t1 - ti)
    dx, dy = x2.at(0, 2) - x1.at(0, 2), x2.at(1, 2) - x1.at(1, 2)
    A = Mat.of([[-c1, -s1, c1 * dy - s1 * dx], [s1, -c1, -c1 * dx - s1 * dy], [0, 0, -1]])
    B = Mat.of([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]])

    def pre(E):
        for i, w in enumerate((3, 3, 1)):
            E.st.store[("this", "_jacobianOplus", ("[]", P(i)))] = Mat(3, w, [Poly.atom(("uninit", ("J", i, k))) for k in range(3 * w)])
    for f in R.need(p, c + "::linearizeOplus", 0):
        for o in R.run(p, f, pre=pre) or ():
            for k, W in enumerate((Mat(3, 3, [s * x for x in A.e]), Mat(3, 3, [s * x for x in B.e]), err)):
                v = at(o, "this", "_jacobianOplus", ("[]", P(k)))
                for i in range(3):
                    for j in range(W.c):
                        g = v.at(i, j) if isinstance(v, Mat) and v.r == 3 and v.c == W.c else None
                        R.same("W02.jacobian", f, o, g, W.at(i, j), "d error(%d) / d vertex %d (%d)" % (i, k, j))
    p = program(["sw_prior"])
    E = Engine(p)
    for f in R.need(p, "EdgeSwitchPrior::computeError", 0):
        m = E.init_value(("this", "_measurement"), "double")
        s = E.init_value(("this", "_vertices", ("[]", P(0)), "*", "_estimate"), "double")
        for o in R.run(p, f) or ():
            v = at(o, "this", "_error")
            R.same("W02.prior-error", f, o, v.e[0] if isinstance(v, Mat) else v, m - s, "error of the switch prior")
    JX = ("this", "_jacobianOplusXi", "&")

    def pre1(E):
        E.st.store[JX] = Mat(1, 1, [Poly.atom(("uninit", ("J", 0)))])
    for f in R.need(p, "EdgeSwitchPrior::linearizeOplus", 0):
        for o in R.run(p, f, pre=pre1) or ():
            v = at(o, *JX)
            R.same("W02.prior-jacobian", f, o, v.e[0] if isinstance(v, Mat) and not o.st.notes else None, P(-1), "Jacobian of the switch prior")


# ---------------------------------------------------------------- records
def rd_of(v):
    """indices of the tokens a value depends on"""
    out = set()

    def pred(a):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "rd":
            out.add(a[1])
        return False
    PL.mentions(v, pred)
    if isinstance(v, Opq) and v.key and v.key[0] == "rd":
        out.add(v.key[1])
    return out


def tokens(R, rule, f, o, stream):
    """values written to stream in order, with blanks removed; None when not understood"""
    toks, sep, bad = [], True, None
    for e in o.st.ev:
        if e["k"] == "loop" and any(x["k"] == "out" for s in e["subs"] for x in sub(s["ev"])):
            return None, "output in a loop that was not unrolled"
        if e["k"] != "out" or e["stream"][:1] != stream:
            continue
        v = e["a"][0]
        if isinstance(v, Opq) and v.key and v.key[0] == "str":
            t = str(v.key[1])
            if t.strip() == "" and t != "":
                sep = True
                continue
            if t == "":
                continue
            toks.append((("text", t), e.get("L")))
            continue
        if isinstance(v, Poly) and v.is_const() and "char" in (e.get("vt") or ""):
            c = chr(int(v.cval()) % 256)
            if c.isspace():
                sep = True
                continue
        if isinstance(v, Opq) and v.key and v.key[0] in ("endl", "manip", "fn"):
            sep = True
            continue
        if not sep:
            bad = (len(toks), e.get("L"))
        toks.append((v, e.get("L")))
        sep = False
    return toks, bad


RECORDS = [("sw_vertex", "VertexSwitchLinear", None), ("sw_prior", "EdgeSwitchPrior", None), ("sw_edge", "EdgeSE2Switchable", None),
           ("mix", "EdgeSE2Mixture", "mix"), ("mixxy", "EdgeSE2PointXYMixture", "mixxy")]


def opaque(st):
    """notes of calls that could have used the stream; looking up vertices and type names does not"""
    return [n for n in st.notes if not (n.startswith("call g2o::") and not re.search(r"::(read|write|load|save)", n))]


def s01(R):
    for unit, c, mix in RECORDS:
        p = program([unit])
        rd, wr = R.one(p, c + "::read", 1), R.one(p, c + "::write", 1)
        out = ("p", wr["ps"][0]["n"])
        M = Mixture(R, mix) if mix else None
        for n in ((0, 1, 2) if mix else (None,)):
            if mix:
                outs = M.run(rd, facts=[mkc(Poly.atom(("rd", 0), True) - n, "==")]) or []
            else:
                outs = R.run(p, rd) or []
            outs = [o for o in outs if o.kind == "ret" and not (isinstance(o.val, Bool) and o.val.c is False)]
            if not outs:
                R.undecided("S01.read", rd, "no successful partition of read")
                continue
            o = next((x for x in reversed(outs) if refute.feasible(list(x.facts.lst))), outs[-1])
            nin = 0
            dest = []
            for e in o.st.ev:
                if e["k"] == "inp":
                    lv = e.get("lv")
                    dest.append(strip(getattr(lv, "t", "") or ""))
                    nin += 1
            s = dict(o.st.store)
            fx = o.facts
            wos = R.run(p, wr, pre=lambda E: (E.st.store.update(s), [E.st.facts.assume(g) for g in fx.lst], setattr(E, "lazy_err", True)))
            for w in (wos or [])[:2]:
                toks, bad = tokens(R, "S01", wr, w, (out[0], out[1])) if False else tokens(R, "S01", wr, w, (out,))
                if toks is None:
                    R.undecided("S01.tokens", wr, bad)
                    continue
                if bad:
                    R.violation("S01.separated", wr, "value %d is written without a separator before it" % bad[0], bad[1])
                else:
                    R.proved("S01.separated", wr, "%d values separated by blanks" % len(toks))
                if len(toks) != nin:
                    dirty = [t for t, _ in toks if not isinstance(t, tuple) and not clean(t) and not rd_of(t)]
                    R.check("S01.count", wr, None if opaque(o.st) or opaque(w.st) else False,
                            "writes %d values, read takes %d" % (len(toks), nin))
                    continue
                R.proved("S01.count", wr, "%d values written and read" % nin)
                for k, (v, L) in enumerate(toks):
                    what = "value %d written" % k
                    ds = rd_of(v) if not (isinstance(v, tuple) and v[0] == "text") else set()
                    if isinstance(v, Poly):
                        x = Poly.atom(("rd", k))
                        if PL.equal(v, x) or PL.equal(v, PL.wrap(x)) or k == 0 and mix and PL.equal(v, P(n)):
                            R.proved("S01.order", wr, what, L)
                        elif (v.as_atom() or ("",))[0] == "vid" and ds:
                            R.check("S01.order", wr, ds == {k}, "%s is the id of the vertex with the id read %s" % (what, "at this place" if ds == {k} else "elsewhere"), L)
                        elif clean(v) and ds != {k}:
                            R.violation("S01.order", wr, "%s is %s: read takes it as something else" % (what, short(v)), L)
                        elif clean(v):
                            R.same("S01.order", wr, w, v, x, what, L=L)
                        elif ds == {k}:
                            R.proved("S01.order", wr, what, L)
                        else:
                            R.undecided("S01.order", wr, what, L)
                    elif ds == {k}:
                        R.proved("S01.order", wr, what, L)
                    elif not ds and k < len(dest) and dest[k].startswith("std::basic_string"):
                        R.proved("S01.order", wr, what + " is the type name", L)
                    else:
                        R.undecided("S01.order", wr, what, L)


def s02(R):
    for unit, c, mix in RECORDS:
        p = program([unit])
        for nm, ek in (("read", "inp"), ("write", "out")):
            f = R.one(p, c + "::" + nm, 1)
            st = (("p", f["ps"][0]["n"]),)
            if mix:
                M = Mixture(R, mix)
                facts = [mkc(Poly.atom(("rd", 0), True) - 2, "==")] if nm == "read" else ()
                outs = M.run(f, facts=facts) or []
            else:
                outs = R.run(p, f) or []
            for o in outs:
                if o.kind != "ret":
                    continue
                last = max([e["n"] for e in o.st.ev if e["k"] == ek and e["stream"] == st] or [0])
                v = o.val[1] if isinstance(o.val, tuple) else o.val
                if not isinstance(v, Bool):
                    R.undecided("S02." + nm, f, "result not interpreted")
                    continue
                oks = [g[1] for g in o.guards() if g[0] == "t" and isinstance(g[1], tuple) and g[1][0] == "streamok" and g[1][1] == st and g[2] is True and g[1][2] >= last]
                bad = [g[1] for g in o.guards() if g[0] == "t" and isinstance(g[1], tuple) and g[1][0] == "streamok" and g[1][1] == st and g[2] is False]
                if v.c is True:
                    if oks:
                        R.proved("S02." + nm, f, "success only with a good stream", o.L)
                    elif opaque(o.st) and not bad:
                        R.undecided("S02." + nm, f, "success not traced", o.L)
                    else:
                        R.violation("S02." + nm, f, "%s reports success although the stream may have failed" % nm, o.L)
                elif v.c is False:
                    if bad:
                        R.proved("S02." + nm, f, "failure only with a failed stream", o.L)
                    elif oks:
                        R.violation("S02." + nm, f, "%s reports failure although the stream is good" % nm, o.L)
                    else:
                        R.undecided("S02." + nm, f, "failure for another reason", o.L)
                else:
                    a = v.c
                    if a[0] == "t" and isinstance(a[1], tuple) and a[1][0] == "streamok" and a[1][1] == st:
                        R.check("S02." + nm, f, a[2] is True and a[1][2] >= last, "result is the state of the stream after the last value", o.L)
                    else:
                        R.undecided("S02." + nm, f, "result %s" % short(v), o.L)


TAGS = {"EdgeSwitchPrior": "EDGE_SWITCH_PRIOR", "EdgeSE2Switchable": "EDGE_SE2_SWITCHABLE", "VertexSwitchLinear": "VERTEX_SWITCH"}


def s03(R):
    """registrations of the optimizer's types: objects of namespace scope in the built sources"""
    import re
    p = program(["sw_types", "sw_edge", "sw_prior", "sw_vertex", "mix", "mixxy"])
    seen = {}
    for v in p.vars:
        m = re.match(r"(?:const )?g2o::RegisterTypeProxy<(\w[\w:]*)>$", v["t"])
        if not m:
            continue
        cls = m.group(1).split("::")[-1]
        f = {"f": v["q"], "q": v["q"], "n": v["n"], "file": v["file"], "L": v["L"]}
        R.funcs.add(v["q"])
        if len(v["lits"]) != 1:
            R.undecided("S03.tag", f, "the tag of %s is not a literal" % cls)
            seen.setdefault(cls, []).append((None, f))
            continue
        seen.setdefault(cls, []).append((v["lits"][0], f))
    byhand = any(x.get("k") == "call" and (x.get("q") or "").endswith("::registerType") for f in p.funcs.values() if f.get("b") is not None for x in nodes(f["b"]))
    where_ = {"f": "types_g2o_robust.cpp", "q": "types_g2o_robust.cpp", "n": "types_g2o_robust.cpp", "file": "src/slam_optimizer/switchable_constraints/types_g2o_robust.cpp", "L": 1}
    for cls, tag in TAGS.items():
        got = seen.get(cls, [])
        if not got:
            R.check("S03.registered", where_, None if byhand else False, "%s is not registered: its records cannot be read" % cls)
            continue
        for t, f in got:
            if t is not None:
                R.check("S03.tag", f, t == tag or (None if len(got) > 1 else False), "records of %s carry the tag %s, expected %s" % (cls, t, tag))
        if not any(t in (tag, None) for t, f in got):
            R.violation("S03.tag", got[0][1], "%s is not registered under %s" % (cls, tag))
    tags = {}
    for cls, xs in seen.items():
        for t, f in xs:
            if t is not None:
                tags.setdefault(t, {})[cls] = f
    for t, cs in tags.items():
        R.check("S03.unique", next(iter(cs.values())), len(cs) == 1, "tag %s names %s" % (t, ", ".join(sorted(cs))))
        R.check("S03.blank", next(iter(cs.values())), bool(t) and not re.search(r"\s", t), "tag %r is one word" % t)


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


RULES = {"S03": s03, "M01": m01, "M02": m02, "M03": m03, "W01": w01, "W02": w02, "S01": s01, "S02": s02}
