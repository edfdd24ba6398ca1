"""Pose algebra: headings, conversions, residuals, covariance propagation."""
from .rules import *

UNITS = ["core"]
E_ = "eigt::"
POL = "Slam2d_Policy::"


def args_of(p, f):
    E = Engine(p)
    return [E.init_value((("p", q["n"] or "arg%d" % i),), strip(q["t"])) for i, q in enumerate(f["ps"])]


def each(R, q, n, fn, opt=False, p=None):
    """fn(report-helper, partition, args) for every partition of every instance of q"""
    p = p or program(UNITS)
    fs = R.need(p, q, n, opt=opt)
    for f in fs:
        a = args_of(p, f)
        outs = R.run(p, f)
        if outs is not None and not [o for o in outs if o.kind == "ret"]:
            R.undecided("no-result", f, "no partition returns")
        for o in outs or ():
            if o.kind != "ret":
                R.violation("throws", f, "%s throws %s" % (f["n"], o.val), o.L)
                continue
            v = o.val
            if isinstance(v, tuple):
                v = v[1]
            fn(f, o, v, a)


def vecmat(p):
    return rigid2(p.at(0, 0), p.at(1, 0), p.at(2, 0))


def tf_parts(t):
    """(x, y, angle) of a rigid symbolic transform"""
    a = None
    for x in (t.at(1, 0),):
        for m in x.atoms():
            at = PL.atom_of(m)
            if at[0] == "sin":
                a = at[1]
    return t.at(0, 2), t.at(1, 2), a


def error_vec(xi, xj, z):
    """t2v(z^-1 (xi^-1 xj))"""
    s1, c1 = PL.sincos(xi.at(2, 0))
    dx, dy = xj.at(0, 0) - xi.at(0, 0), xj.at(1, 0) - xi.at(1, 0)
    ux, uy = c1 * dx + s1 * dy - z.at(0, 0), c1 * dy - s1 * dx - z.at(1, 0)
    s2, c2 = PL.sincos(z.at(2, 0))
    return Mat.of([[c2 * ux + s2 * uy], [c2 * uy - s2 * ux], [PL.wrap(xj.at(2, 0) - xi.at(2, 0) - z.at(2, 0))]])


def jac(xi, xj, z):
    phi = z.at(2, 0) + xi.at(2, 0)
    s, c = PL.sincos(phi)
    dx, dy = xj.at(0, 0) - xi.at(0, 0), xj.at(1, 0) - xi.at(1, 0)
    A = Mat.of([[-c, -s, c * dy - s * dx], [s, -c, -c * dx - s * dy], [0, 0, -1]])
    B = Mat.of([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    return A, B


def el(v, i):
    return v.e[i] if isinstance(v, Mat) and i < len(v.e) else None


def a01(R):
    def ang(rule, i, want):
        def fn(f, o, v, a):
            w = want(a)
            R.same("A01." + rule, f, o, el(v, i) if i is not None else v, w, "heading of %s" % f["n"])
        return fn
    each(R, E_ + "normalizeAngle", 1, ang("normalize", None, lambda a: PL.wrap(a[0])))
    each(R, E_ + "getAngle", 1, ang("getAngle", None, lambda a: PL.wrap(tf_parts(a[0])[2])))
    each(R, E_ + "getAngleDiffrence", 2, ang("diff", None, lambda a: PL.wrap(a[1].at(2, 0) - a[0].at(2, 0))))
    each(R, E_ + "transformPose", 2, ang("transformPose", 2, lambda a: PL.wrap(a[0].at(2, 0) + tf_parts(a[1])[2])))
    each(R, E_ + "transformConcat", 2, ang("transformConcat", 2, lambda a: PL.wrap(a[0].at(2, 0) + tf_parts(a[1])[2])))
    each(R, E_ + "getPoseFromTransform", 1, ang("fromTransform", 2, lambda a: PL.wrap(tf_parts(a[0])[2])))
    each(R, POL + "transMatToVec", 1, ang("transMatToVec", 2, lambda a: PL.wrap(tf_parts(a[0])[2])))
    each(R, POL + "addPoses", 2, ang("addPoses", 2, lambda a: PL.wrap(a[0].at(2, 0) + a[1].at(2, 0))))
    each(R, POL + "calcError", 3, ang("calcError", 2, lambda a: PL.wrap(a[1].at(2, 0) - a[0].at(2, 0) - a[2].at(2, 0))))

    def m2v(f, o, v, a):
        m = a[0]
        R.same("A01.matToVec", f, o, el(v, 2), PL.atan2(m.at(1, 0), m.at(0, 0)), "heading of a rotation matrix")
    p = program(UNITS)
    for f in R.need(p, E_ + "matToVec2d", 1):
        m2v_rigid(R, p, f, "A01.matToVec", (2,))
    # the pose of a node after an update is normalised too
    g_pose = pose_field(R, p)
    for f in R.need(p, "slamuk::Node::addToPose", 1):
        E = Engine(p)
        a = args_of(p, f)[0]
        old = E.init_value(("this", g_pose), "Eigen::Matrix<double, 3, 1>")
        for o in R.run(p, f) or ():
            R.same("A01.addToPose", f, o, el(at(o, "this", g_pose), 2), PL.wrap(old.at(2, 0) + a.at(2, 0)),
                   "heading of a node after addToPose")


def m2v_rigid(R, p, f, rule, idx):
    """matToVec of a rigid motion in the plane given as a plain matrix"""
    x, y, t = (Poly.atom(("in", (("p", "m"), k))) for k in ("tx", "ty", "angle"))
    n = tinfo(strip(f["ps"][0]["t"])).r
    s, c = PL.sincos(t)
    m = Mat.of([[c, -s, x], [s, c, y], [0, 0, 1]]) if n == 3 else Mat.of([[c, -s, 0, x], [s, c, 0, y], [0, 0, 1, 0], [0, 0, 0, 1]])
    want = [x, y, PL.wrap(t)]
    for o in R.run(p, f, args=[m]) or ():
        if o.kind != "ret":
            continue
        for i in idx:
            R.same(rule, f, o, el(o.val, i), want[i], "component %d of the pose of a matrix" % i)


def pose_field(R, p):
    from .rules_graph import getter
    return getter(R, p, "slamuk::Node::getPose")


def a02(R):
    p = program(UNITS)

    def full(rule, want, what):
        def fn(f, o, v, a):
            R.same("A02." + rule, f, o, v, want(a), what + " in " + f["n"])
        return fn
    each(R, E_ + "getTransFromPose", 1, full("toTransform", lambda a: vecmat(a[0]), "rigid transform of a pose"))
    each(R, POL + "vecToTransMat", 1, full("toTransform", lambda a: vecmat(a[0]), "rigid transform of a pose"))
    each(R, E_ + "vecToMat2d", 1, full("vecToMat2d", lambda a: vecmat(a[0]), "3x3 matrix of a pose"))

    def m4(a):
        s, c = PL.sincos(a[0].at(2, 0))
        return Mat.of([[c, -s, 0, a[0].at(0, 0)], [s, c, 0, a[0].at(1, 0)], [0, 0, 1, 0], [0, 0, 0, 1]])
    each(R, E_ + "vecToMat3d", 1, full("vecToMat3d", m4, "4x4 matrix of a pose"))

    def cft(a):
        t = a[0]
        return Mat.of([[t.at(0, 0), t.at(0, 1), 0, t.at(0, 2)], [t.at(1, 0), t.at(1, 1), 0, t.at(1, 2)], [0, 0, 1, 0], [0, 0, 0, 1]])
    each(R, E_ + "convertFromTransform", 1, full("fromTransform4", cft, "4x4 matrix of a transform"))

    def ctt(a):
        m = a[0]
        return Mat.of([[m.at(0, 0), m.at(0, 1), m.at(0, 3)], [m.at(1, 0), m.at(1, 1), m.at(1, 3)], [0, 0, 1]])
    each(R, E_ + "convertToTransform", 1, full("toTransform4", ctt, "planar part of a 4x4 matrix"))
    each(R, E_ + "transBtwPoses", 2, full("btwPoses", lambda a: rigid2(a[1].at(0, 0) - a[0].at(0, 0), a[1].at(1, 0) - a[0].at(1, 0),
                                                                  a[1].at(2, 0) - a[0].at(2, 0)), "component-wise difference"))

    def pos(rule, want):
        def fn(f, o, v, a):
            w = want(a)
            for i in (0, 1):
                R.same("A02." + rule, f, o, el(v, i), w[i], "coordinate %d of %s" % (i, f["n"]))
        return fn
    each(R, E_ + "getPoseFromTransform", 1, pos("toPose", lambda a: tf_parts(a[0])[:2]))
    each(R, POL + "transMatToVec", 1, pos("toPose", lambda a: tf_parts(a[0])[:2]))
    each(R, E_ + "transformPose", 2, pos("transformPose", lambda a: [a[0].at(i, 0) + tf_parts(a[1])[i] for i in (0, 1)]))

    def conc(a):
        x, y, t = tf_parts(a[1])
        s, c = PL.sincos(a[0].at(2, 0))
        return [a[0].at(0, 0) + c * x - s * y, a[0].at(1, 0) + s * x + c * y]
    each(R, E_ + "transformConcat", 2, pos("concat", conc))
    each(R, POL + "addPoses", 2, pos("addPoses", lambda a: [a[0].at(i, 0) + a[1].at(i, 0) for i in (0, 1)]))

    def disp(f, o, v, a):
        x, y, _ = tf_parts(a[0])
        R.same("A02.displacement", f, o, v, PL.sqrt(x * x + y * y), "length of the translation")
    each(R, E_ + "getDisplacement", 1, disp)

    def frames(f, o, v, a):
        th = a[0].at(2, 0) - a[1].at(2, 0)
        dx, dy = a[0].at(0, 0) - a[1].at(0, 0), a[0].at(1, 0) - a[1].at(1, 0)
        s, c = PL.sincos(a[1].at(2, 0))
        s2, c2 = PL.sincos(th)
        want = [[c2, -s2, c * dx + s * dy], [s2, c2, c * dy - s * dx]]
        if not isinstance(v, Mat):
            R.undecided("A02.frames", f, "not interpreted")
            return
        for i in range(2):
            for j in range(3):
                R.same("A02.frames", f, o, v.at(i, j), want[i][j], "entry %d,%d of the frame change" % (i, j))
    each(R, E_ + "transBtwFrames", 2, frames)
    for f in R.need(p, E_ + "matToVec2d", 1):
        m2v_rigid(R, p, f, "A02.matToVec", (0, 1))
    g = pose_field(R, p)
    for f in R.need(p, "slamuk::Node::addToPose", 1):
        E = Engine(p)
        a = args_of(p, f)[0]
        old = E.init_value(("this", g), "Eigen::Matrix<double, 3, 1>")
        for o in R.run(p, f) or ():
            v = at(o, "this", g)
            for i in (0, 1):
                R.same("A02.addToPose", f, o, el(v, i), old.at(i, 0) + a.at(i, 0), "coordinate %d of a node after addToPose" % i)
    for f in R.need(p, "slamuk::Node::setPose", 1):
        for o in R.run(p, f) or ():
            R.same("A02.setPose", f, o, at(o, "this", g), args_of(p, f)[0], "pose of a node after setPose")


def a03(R):
    p = program(UNITS)

    def err(f, o, v, a):
        w = error_vec(*a)
        for i in (0, 1, 2):
            R.same("A03.error", f, o, el(v, i), w.e[i], "component %d of the edge error" % i)
    each(R, POL + "calcError", 3, err)

    def jb(f, o, v, a):
        A, B = jac(*a)
        if not isinstance(v, Rec):
            R.undecided("A03.jacobian", f, "not interpreted")
            return
        for k, W, nm in (("first", A, "start"), ("second", B, "end")):
            for i in range(3):
                for j in range(3):
                    g = v.f.get(k)
                    R.same("A03.jacobian", f, o, g.at(i, j) if isinstance(g, Mat) and g.r == 3 and g.c == 3 else None, W.at(i, j),
                           "d error(%d) / d %s pose(%d)" % (i, nm, j))
    each(R, POL + "calcJacobianBlocks", 3, jb)
    # the edge uses its own end nodes and transform
    from .rules_graph import Roles
    g = Roles(R)
    E = Engine(p)
    tr = None
    from .rules_graph import getter
    tr = getter(R, p, "slamuk::Edge::getTransform")
    xi = E.init_value(("this", g.efrom, "*", g.pose), "Eigen::Matrix<double, 3, 1>")
    xj = E.init_value(("this", g.eto, "*", g.pose), "Eigen::Matrix<double, 3, 1>")
    z = E.init_value(("this", tr), "Eigen::Matrix<double, 3, 1>")
    each(R, "slamuk::Edge::getError", 0, lambda f, o, v, a: err(f, o, v, (xi, xj, z)))
    each(R, "slamuk::Edge::getJacobianBlocks", 0, lambda f, o, v, a: jb(f, o, v, (xi, xj, z)))
    each(R, "slamuk::Edge::getTransMatrix", 0, lambda f, o, v, a: R.same("A03.edge-transform", f, o, v, vecmat(z), "transform matrix of an edge"))
    for f in p.funcs.values():
        if f.get("ctor") and bare(f["q"]) == "slamuk::Edge::Edge" and len(f["ps"]) == 4:
            inf = getter(R, p, "slamuk::Edge::getInformationMatrix")
            a = args_of(p, f)
            for o in R.run(p, f) or ():
                R.same("A03.edge-ctor", f, o, at(o, "this", tr), a[2], "transform of a new edge")
                R.same("A03.edge-ctor", f, o, at(o, "this", inf), a[3], "information matrix of a new edge")


def c02(R):
    p = program(UNITS)
    E = Engine(p)
    r = rec_of(p, "slamuk::CovarianceWrapper")
    if not r:
        raise Anchor("CovarianceWrapper")
    fld = field(r[0], "covar_", t=lambda t: "Matrix" in t)
    C = E.init_value(("this", fld), "Eigen::Matrix<double, 3, 3>")
    for f in R.need(p, "slamuk::CovarianceWrapper::addToCovar", 2):
        a = args_of(p, f)
        O, T = a
        x, y, t = tf_parts(T)
        s, c = PL.sincos(t)
        J1 = Mat.of([[1, 0, -s * x - c * y], [0, 1, c * x - s * y], [0, 0, 1]])
        J2 = Mat.of([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        want = J1 @ C @ J1.T() + J2 @ O @ J2.T()
        for o in R.run(p, f) or ():
            v = at(o, "this", fld)
            for i in range(3):
                for j in range(3):
                    R.same("C02.propagate", f, o, v.at(i, j) if isinstance(v, Mat) else v, want.at(i, j), "covariance entry %d,%d" % (i, j))
    for f in p.funcs.values():
        if f.get("ctor") and f["n"] == "CovarianceWrapper" and f.get("b") is not None and not f.get("implicit"):
            a = args_of(p, f)
            for o in R.run(p, f) or ():
                R.same("C02.initial", f, o, at(o, "this", fld), a[0] if a else ident(3), "initial covariance")


RULES = {"A01": a01, "A02": a02, "A03": a03, "C02": c02}
