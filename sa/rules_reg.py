"""Registration tools, covariance conditioning, text splitting and header hygiene."""
import itertools
import os
import re
import shutil
import subprocess

from . import facts as FA
from .rules import *
from .rules_pose import args_of

UNITS = ["core"]
REG = "pcl::ndt_reg::"
F = lambda n, *a: PL.func(n, *a)
NPOS = (1 << 64) - 1


def val(o):
    return o.val[1] if isinstance(o.val, tuple) else o.val


def rets(R, p, f, **kw):
    outs = R.run(p, f, **kw)
    return [o for o in outs or () if o.kind == "ret"]


# ---------------------------------------------------------------- score accumulation
def r01(R):
    p = program(UNITS)
    sad = REG + "ScoreAndDerivatives"
    names = [f["n"] for f in rec_of(p, sad)[0]["fields"]] if rec_of(p, sad) else []
    if not names:
        raise Anchor(sad)
    ty = {f["n"]: strip(f["t"]) for f in rec_of(p, sad)[0]["fields"]}
    for f in R.need(p, sad + "::operator+=", 1):
        E = Engine(p)
        q = ("p", f["ps"][0]["n"])
        for o in rets(R, p, f):
            for x in names:
                a, b = E.init_value(("this", x), ty[x]), E.init_value((q, x), ty[x])
                want = a + b if isinstance(a, Poly) else Mat(a.r, a.c, [u + v for u, v in zip(a.e, b.e)])
                R.same("R01.add", f, o, at(o, "this", x), want, "sum of " + x)
    for f in R.need(p, REG + "operator+", 2):
        E = Engine(p)
        qs = [("p", q["n"]) for q in f["ps"]]
        for o in rets(R, p, f):
            v = val(o)
            for x in names:
                a, b = (E.init_value((q, x), ty[x]) for q in qs)
                want = a + b if isinstance(a, Poly) else Mat(a.r, a.c, [u + w for u, w in zip(a.e, b.e)])
                R.same("R01.sum", f, o, v.f.get(x) if isinstance(v, Rec) else None, want, "sum of " + x)
    for c in (sad, REG + "JacobianHessianDerivatives"):
        r = rec_of(p, c)
        if not r:
            raise Anchor(c)
        fs = [(x["n"], strip(x["t"])) for x in r[0]["fields"]]
        E = Engine(p)

        def zero(rule, f, o, get):
            for x, t in fs:
                z = E.init_value(("this", x), t)
                want = P(0) if isinstance(z, Poly) else Mat(z.r, z.c, [P(0)] * (z.r * z.c))
                R.same(rule, f, o, get(x), want, "%s of an empty sum" % x)
        for f in p.funcs.values():
            if f.get("ctor") and not f["ps"] and bare(f.get("cls") or "") == c and f.get("b") is not None:
                for o in rets(R, p, f):
                    zero("R01.new", f, o, lambda x: at(o, "this", x))
        for f in p.find(c + "::setZero", 0):
            for o in rets(R, p, f):
                zero("R01.zero", f, o, lambda x: at(o, "this", x))
        for f in R.need(p, c + "::Zero", 0):
            for o in rets(R, p, f):
                v = val(o)
                zero("R01.zero", f, o, lambda x: v.f.get(x) if isinstance(v, Rec) else None)


# ---------------------------------------------------------------- More-Thuente line search
def r02(R):
    p = program(UNITS)
    for f in R.need(p, REG + "updateIntervalMT", 9):
        a = args_of(p, f)
        al, fl, gl, au, fu, gu, t, ft, gt = a
        for o in rets(R, p, f):
            now = [at(o, ("p", f["ps"][i]["n"])) for i in range(6)]
            now = [x if x is not None else a[i] for i, x in enumerate(now)]
            d = gt * (al - t)
            for conds, want, done, what in (
                    ([mkc(fl - ft, "<")], [al, fl, gl, t, ft, gt], False, "U1: the trial becomes the upper end"),
                    ([mkc(ft - fl, "<="), mkc(P(0) - d, "<")], [t, ft, gt, au, fu, gu], False, "U2: the trial becomes the lower end"),
                    ([mkc(ft - fl, "<="), mkc(d, "<")], [t, ft, gt, al, fl, gl], False, "U3: the interval is reversed"),
                    ([mkc(ft - fl, "<="), mkc(d, "==")], [al, fl, gl, au, fu, gu], True, "converged: nothing changes")):
                for i in range(6):
                    R.same("R02.interval", f, o, now[i], want[i], "%s (%s)" % (what, f["ps"][i]["n"]), conds)
                R.same("R02.converged", f, o, val(o), Bool(done), what, conds)
    for f in R.need(p, REG + "trialValueSelectionMT", 9):
        al, fl, gl, au, fu, gu, t, ft, gt = args_of(p, f)

        def cubic(a, fa, ga):
            z = P(3) * (ft - fa) * PL.inv(t - a) - gt - ga
            w = F("sqrt", z * z - gt * ga)
            return a + (t - a) * (w - ga - z) * PL.inv(gt - ga + P(2) * w)
        ac = cubic(al, fl, gl)
        aq = al - P(PL.Q(1, 2)) * (al - t) * gl * PL.inv(gl - (fl - ft) * PL.inv(al - t))
        asec = al - (al - t) * PL.inv(gl - gt) * gl
        A = lambda x: F("abs", x)
        lim = t + P(PL.Q(66, 100)) * (au - t)
        c1 = [mkc(fl - ft, "<")]
        c2 = [mkc(ft - fl, "<="), mkc(gt * gl, "<")]
        c3 = [mkc(ft - fl, "<="), mkc(P(0) - gt * gl, "<="), mkc(A(gt) - A(gl), "<=")]
        c4 = [mkc(ft - fl, "<="), mkc(P(0) - gt * gl, "<="), mkc(A(gl) - A(gt), "<")]
        near = lambda x, y, b, op="<": mkc(A(x - b) - A(y - b), op)
        half = P(PL.Q(1, 2))
        cases = [(c1 + [near(ac, aq, al)], ac, "case 1, cubic"), (c1 + [near(aq, ac, al, "<=")], half * (aq + ac), "case 1, average"),
                 (c2 + [near(asec, ac, t, "<=")], ac, "case 2, cubic"), (c2 + [near(ac, asec, t)], asec, "case 2, secant"),
                 (c4, cubic(au, fu, gu), "case 4")]
        for cc, nx, w in (([near(ac, asec, t)], ac, "cubic"), ([near(asec, ac, t, "<=")], asec, "secant")):
            cases += [(c3 + cc + [mkc(al - t, "<"), mkc(nx - lim, "<=")], nx, "case 3, %s, rising" % w),
                      (c3 + cc + [mkc(al - t, "<"), mkc(lim - nx, "<")], lim, "case 3, %s, rising, limited" % w),
                      (c3 + cc + [mkc(t - al, "<="), mkc(lim - nx, "<=")], nx, "case 3, %s, falling" % w),
                      (c3 + cc + [mkc(t - al, "<="), mkc(nx - lim, "<")], lim, "case 3, %s, falling, limited" % w)]
        for o in rets(R, p, f):
            for conds, want, what in cases:
                R.same("R02.trial", f, o, val(o), want, what, conds)
    for nm, n in (("auxilaryFunction_PsiMT", 5), ("auxilaryFunction_dPsiMT", 3)):
        for f in R.need(p, REG + nm, n):
            a = args_of(p, f)
            for o in rets(R, p, f):
                want = a[1] - a[2] - a[4] * a[3] * a[0] if n == 5 else a[0] - a[2] * a[1]
                R.same("R02.psi", f, o, val(o), want, nm)


def r03(R):
    p = program(UNITS)
    c = REG + "FittingParams"
    r = rec_of(p, c)
    if not r:
        raise Anchor(c)
    for f in [g for g in p.funcs.values() if g.get("ctor") and g.get("cls") == c and len(g["ps"]) == 2 and g.get("b") is not None]:
        a = args_of(p, f)
        for o in rets(R, p, f):
            w, res = a
            c1, c2 = P(10) * (P(1) - w), w * PL.inv(res * res)
            L = lambda x: F("log", x)
            d1 = L(c2) - L(c1 + c2)
            d2 = P(-2) * L((L(c2) - L(c1 * F("exp", P(PL.Q(-1, 2))) + c2)) * PL.inv(d1))
            for x, want in (("gauss_d1_", d1), ("gauss_d2_", d2), ("gauss_d2__half_", d2 * P(PL.Q(1, 2)))):
                R.same("R03.params", f, o, at(o, "this", x), want, x)


def r04(R):
    p = program(UNITS)
    for f in R.need(p, REG + "vecToMat", 1):
        a = args_of(p, f)[0]
        s, c = PL.sincos(a.at(2, 0))
        want = Mat.of([[c, P(0) - s, 0, a.at(0, 0)], [s, c, 0, a.at(1, 0)], [0, 0, 1, 0], [0, 0, 0, 1]])
        for o in rets(R, p, f):
            R.same("R04.matrix", f, o, val(o), want, "rigid motion of the pose")
    for f in R.need(p, REG + "matToVec", 1):
        m = args_of(p, f)[0]
        want = Mat(3, 1, [m.at(0, 3), m.at(1, 3), F("atan2", m.at(1, 0), m.at(0, 0))])
        for o in rets(R, p, f):
            R.same("R04.pose", f, o, val(o), want, "pose of the motion")
        # and back
        th = Poly.atom(("in", ("th",)))
        x, y = Poly.atom(("in", ("x",))), Poly.atom(("in", ("y",)))
        s, c = PL.sincos(th)
        M = Mat.of([[c, P(0) - s, 0, x], [s, c, 0, y], [0, 0, 1, 0], [0, 0, 0, 1]])
        for o in rets(R, p, f, args=[M]):
            R.same("R04.inverse", f, o, val(o), Mat(3, 1, [x, y, PL.wrap(th)]), "pose of the motion of a pose")


# ---------------------------------------------------------------- conditioning of covariances
def symat(name, n):
    """a symmetric matrix of unknowns"""
    return Mat(n, n, [Poly.atom(("in", (name, min(i, j), max(i, j)))) for i in range(n) for j in range(n)])


def c01(R):
    p = program(UNITS)
    f100 = P(PL.Q(1, 100))
    for f in R.need(p, "slamuk::covarInverse", 3):
        names = [("p", q["n"]) for q in f["ps"]]
        cov = symat("C", 3)
        ev, V = eig(cov)
        tot = ev[0] + ev[1] + ev[2]
        order = [mkc(ev[0] - ev[1], "<="), mkc(ev[1] - ev[2], "<=")]

        def go(conds):
            a = [cov, None, None]
            return rets(R, p, f, args=a, pre=lambda E: [E.st.facts.assume(c) for c in conds])
        E = Engine(p)
        for o in go(order + [mkc(tot, "<=")]):
            R.same("C01.rejected", f, o, val(o), Bool(False), "a covariance without positive spread is rejected", order + [mkc(tot, "<=")])
        pos = order + [mkc(P(0) - tot, "<"), mkc(P(0) - ev[2], "<")]
        for lo in range(3):
            conds, D = list(pos), []       # the lo smallest eigenvalues are below a hundredth of the largest
            for i in range(3):
                conds.append(mkc(P(100) * ev[i] - ev[2], "<") if i < lo else mkc(ev[2] - P(100) * ev[i], "<="))
                D.append(ev[2] * f100 if i < lo else ev[i])
            for o in go(conds):
                R.same("C01.accepted", f, o, val(o), Bool(True), "a covariance with positive spread is inverted", conds)
                if isinstance(val(o), Bool) and val(o).c is False:
                    continue
                adj, ic = (at(o, n) or E.init_value((n,), m3(3)) for n in names[1:])
                want = cov if lo == 0 else Mat(3, 3, (V @ diag(D) @ V.T()).e)
                R.same("C01.adjusted", f, o, adj, want, "%d eigenvalues raised to a hundredth of the largest" % lo, conds)
                wi = Mat(3, 3, (V @ diag([PL.inv(d) for d in D]) @ V.T()).e)
                R.same("C01.inverse", f, o, ic, wi, "inverse of the adjusted covariance", conds)


def m3(n):
    return "Eigen::Matrix<double, %d, %d>" % (n, n)


def diag(D):
    n = len(D)
    return Mat(n, n, [D[i] if i == j else P(0) for i in range(n) for j in range(n)])


def eig(m):
    n = m.r
    return ([Poly.atom(("eval", m, i)) for i in range(n)],
            Mat(n, n, [Poly.atom(("evec", m, i, j)) for j in range(n) for i in range(n)]))


# ---------------------------------------------------------------- splitting text
class NoStr(Exception):
    pass


def search(name, s, t, rest):
    fwd = "first" in name
    st = rest[0] if rest else (0 if fwd else NPOS)
    if name == "rfind":
        hit = lambda i: s.startswith(t, i)
        idx = range(len(s) + 1)
    else:
        hit = lambda i: (s[i] in t) != ("not" in name)
        idx = range(len(s))
    c = [i for i in idx if hit(i) and (i >= st if fwd else i <= st)]
    return (c[0] if fwd else c[-1]) if c else NPOS


def memo(fn):
    def go(x, env):
        if isinstance(x, int):
            return x
        c = env.setdefault(fn.__name__, {})
        k = id(x)
        if k not in c:
            try:
                c[k] = (x, fn(x, env))
            except NoStr as ex:
                c[k] = (x, ex)
        v = c[k][1]
        if isinstance(v, NoStr):
            raise v
        return v
    return go


@memo
def sval(v, env):
    """text denoted by a string term"""
    if isinstance(v, Opq):
        k = v.key
        if k[0] == "str":
            return k[1]
        if k[0] == "in" and k[1] in env:
            return env[k[1]]
        if k[0] == "substr":
            s = sval(k[1], env)
            a = [ival(x, env) for x in k[2]] or [0]
            if a[0] > len(s):
                raise NoStr()
            n = a[1] if len(a) > 1 else NPOS
            return s[a[0]:] if n >= len(s) else s[a[0]:a[0] + n]
    raise NoStr()


@memo
def ival(p, env):
    if not isinstance(p, Poly):
        raise NoStr()
    s = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            t = PL.atom_of(a)
            if t[0] == "strlen":
                x = len(sval(t[1], env))
            elif t[0] == "strfind":
                h, ar = sval(t[1], env), t[2]
                st = ival(ar[1], env) if len(ar) > 1 else 0
                x = h.find(sval(ar[0], env), st) if st <= len(h) else -1
                x = NPOS if x < 0 else x
            elif t[0] == "strsearch":
                x = search(t[1], sval(t[2], env), sval(t[3][0], env), [ival(y, env) for y in t[3][1:]])
            else:
                raise NoStr()
            v *= x ** e
        s += v
    if s != int(s):
        raise NoStr()
    return int(s)


def sholds(g, env):
    if g in (True, False):
        return g
    if g[0] != "c":
        raise NoStr()
    v = ival(g[1], env)
    return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0}[g[2]]


def h04(R):
    p = program(UNITS)
    for f in R.need(p, "slamuk::split", 2):
        data, token = ((("p", q["n"]),) for q in f["ps"])
        S, T = Opq("in", data), Opq("in", token)
        outs = rets(R, p, f)
        npos = P(NPOS)
        find = lambda s: Poly.atom(("strfind", s, (T, P(0))), True, True)
        known = []
        for o in outs:
            v = val(o)
            if not isinstance(v, Vec) or not v.n.is_const() or not clean(v.n):
                continue
            n = int(v.n.cval())
            ent = {e[0]: e[1] for e in v.ent}
            try:
                pieces = [ent[(("[]", P(i)),)] for i in range(n)]
            except KeyError:
                R.undecided("H04.pieces", f, "%d pieces, not all known" % n)
                continue
            known.append((o, pieces))
            rest, ok = S, True
            for k in range(n):
                last = k == n - 1
                q = find(rest)
                want = Opq("substr", rest, (P(0), q))
                if not (pieces[k] == want or n == 1 and pieces[k] == S):
                    ok = False
                if not last:
                    rest = Opq("substr", rest, (q + Poly.atom(("strlen", T), True, True), npos))
            if ok:
                R.proved("H04.pieces", f, "%d pieces between the separators" % n)
            else:
                R.undecided("H04.pieces", f, "%d pieces not matched term by term" % n)
        # valuations of the text: summary against the definition of splitting
        alpha = ["", "a", ",", "a,b", "a,,b", ",a,", "ab", "aab", "a, b, c", ", ", "aaa", "a,b;c", ",,", "abcabc"]
        for d, t in itertools.product(alpha, ["", ",", ", ", "a", "ab", "aa", "b"]):
            env = {data: d, token: t}
            want = [d] if t == "" else d.split(t)
            try:
                m = [(o, ps) for o, ps in known if all(sholds(g, env) for g in o.facts.lst)]
                if not m:
                    closed = [o for o in outs if not isinstance(val(o), Vec) or not val(o).n.is_const()]
                    if t == "" or not closed:
                        R.violation("H04.terminates", f, "split(%r, %r) does not end" % (d, t))
                    continue
                got = [sval(x, env) for x in m[0][1]]
            except NoStr:
                R.undecided("H04.value", f, "pieces of %r by %r not interpreted" % (d, t))
                continue
            R.check("H04.value", f, got == want, "split(%r, %r) gives %r, expected %r" % (d, t, got, want))


# ---------------------------------------------------------------- headers
ALL = ["core", "cell", "mix", "mixxy", "sw_edge", "sw_prior", "sw_vertex", "sw_types"]


def h01(R):
    p = program(ALL)
    for k, f in sorted(p.funcs.items()):
        if f.get("b") is None or "/include/" not in "/" + f.get("file", "") or f.get("implicit"):
            continue
        if f.get("tmpl") or f.get("inl") or "<" in f.get("cls", "") or f.get("storage_static") or f.get("anon"):
            R.proved("H01.inline", f, "may be defined in every translation unit")
        elif "<" in bare(f["q"]):
            R.proved("H01.inline", f, "instantiation")
        else:
            R.violation("H01.inline", f, "defined in a header without inline: two translation units including it do not link")
        R.funcs.add(f["f"])
    done = set()
    for v in p.vars:
        if "/include/" not in "/" + v["file"] or (v["file"], v["L"]) in done:
            continue
        done.add((v["file"], v["L"]))
        f = {"f": v["q"], "q": v["q"], "n": v["n"], "file": v["file"], "L": v["L"]}
        if v["ext"] and not v["inl"]:
            R.violation("H01.variable", f, "variable defined in a header without inline: two sources including it do not link")
        else:
            R.proved("H01.variable", f, "may be defined in every translation unit")


def owner(fs, path, line):
    """the function of a file a line belongs to"""
    c = [f for f in fs if f.get("file") == path and f["L"] <= line]
    return max(c, key=lambda f: f["L"]) if c else {"f": path, "file": path, "L": line, "n": path, "q": path}


def h05(R):
    """every member compiles, every header stands alone, every declared function is defined"""
    p = program(ALL)
    cxx = next((c for c in ("g++-11", "g++") if shutil.which(c)), None)
    if not cxx:
        raise FA.InfraError("no g++")
    fl = [x for x in FA.FLAGS if x not in ("-O3", "-xc++")] + ["-fsyntax-only", "-w", "-xc++"]
    inst = FA.VERIF + "/probe/inst.cpp"
    jobs = [("inst", inst, subprocess.Popen([cxx] + fl + [inst], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))]
    heads = []
    inc = FA.PKG + "/include/"
    for d, dn, fs in sorted(os.walk(inc)):
        dn.sort()
        heads += [os.path.join(d, f)[len(inc):] for f in sorted(fs) if f.endswith((".h", ".hpp"))]
    for h in heads:
        j = subprocess.Popen([cxx] + fl + ["-"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        j.stdin.write("#include <%s>\n" % h)
        j.stdin.close()
        j.stdin = None
        jobs.append(("alone", h, j))
    allf = list(p.funcs.values())
    for kind, what, j in jobs:
        _, err = j.communicate()
        path = "include/" + what if kind == "alone" else "probe"
        if not j.returncode:
            if kind == "alone":
                R.proved("H05.alone", {"f": path, "q": path, "n": path, "file": path, "L": 1}, "the header compiles on its own")
            else:
                for f in allf:
                    if f.get("tmpl") or "<" in f.get("cls", ""):
                        R.funcs.add(f["f"])
                R.proved("H05.inst", {"f": path, "q": path, "n": path, "file": path, "L": 1}, "every member of every class template compiles")
            continue
        missing = re.search(r"fatal error: (\S+): No such file or directory", err)
        if missing and not os.path.exists(inc + missing.group(1)) and not missing.group(1).startswith("ndt_gslam/"):
            R.notes.add("%s needs %s, which is not installed" % (path, missing.group(1)))
            if kind == "inst":
                raise FA.InfraError(missing.group(0))
            continue
        got = False
        block = []
        for l in err.splitlines():
            m = re.match(r"(?:In file included from |\s+from )", l)
            if m:
                continue
            m = re.match(r"(\S+?):(\d+)(?::\d+)?:\s+(.*)$", l)
            if not m:
                m2 = re.match(r"(\S+): In (?:.*)", l)
                if m2:
                    block = []
                continue
            if "required from" in m.group(3) or "required by" in m.group(3):
                block.append((m.group(1), int(m.group(2))))
            elif re.match(r"(fatal )?error:", m.group(3)):
                at = [x for x in [(m.group(1), int(m.group(2)))] + block if x[0].startswith(FA.PKG)]
                block = []
                if at and not got:
                    got = True
                    rel = at[0][0][len(FA.PKG) + 1:]
                    R.violation("H05." + kind, owner(allf, rel, at[0][1]), "does not compile%s: %s" % (
                        " when instantiated" if kind == "inst" else " when the header is included alone", m.group(3)[7:200]), at[0][1])
        if not got:
            if kind == "inst":
                raise Anchor("the probe of all instantiations does not compile: " + err[-300:])
            R.undecided("H05.alone", {"f": path, "q": path, "n": path, "file": path, "L": 1}, "compiler output not understood: " + err[-200:])
    # ---- declared and defined
    have = set(p.funcs)
    cls_of = lambda q: q.rpartition("::")[0]
    alive = {cls_of(bare(f["q"])) for f in allf if f.get("b") is not None and not f.get("implicit")}
    decl = {}
    for x in p.nodef:
        if "/include/" in "/" + x["file"] and not (x["f"] and x["f"] in have):
            decl.setdefault((x["q"], x["ps"]), []).append(x)
    nunits = {}
    for (q, ps), xs in sorted(decl.items()):
        x = xs[0]
        f = {"f": q, "q": q, "n": x["n"], "file": x["file"], "L": x["L"]}
        if x["dep"] and any(bare(g["q"]) == bare(q) for g in allf if g.get("b") is not None):
            R.proved("H05.defined", f, "a template of this name is defined")
        elif cls_of(bare(q)) not in alive and cls_of(bare(q)):
            R.notes.add("%s: its source is not analysed" % cls_of(bare(q)))
        else:
            R.violation("H05.defined", f, "declared but defined nowhere: a program that uses it does not link", x["L"])


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def h03(R):
    p = program(ALL)
    read = set()
    for f in p.funcs.values():
        skip = set()
        for n in walk(f.get("b")):
            if n.get("k") == "asg" and n.get("op") == "=" and isinstance(n.get("l"), dict):
                skip.add(id(n["l"]))
        for n in walk(f.get("b")):
            if n.get("k") == "mem" and id(n) not in skip:
                read.add((bare(n.get("cls", "")), n["n"]))
    for k, f in sorted(p.funcs.items()):
        if not f.get("ctor") or f.get("b") is None or f.get("implicit") or f.get("dflt"):
            continue
        r = rec_of(p, f["cls"])
        if not r or not r[0].get("fields"):
            continue
        sc = [x["n"] for x in r[0]["fields"] if scalar(strip(x["t"]))]
        if not sc:
            continue
        for o in rets(R, p, f):
            for x in sc:
                if (bare(f["cls"]), x) not in read:
                    continue
                v = at(o, "this", x)
                if v is None and (o.st.notes or any(pp[:1] == ("this",) and len(pp) == 1 for pp in o.st.store)):
                    R.undecided("H03.init", f, "member %s not traced" % x)
                elif v is None or uninit_in(v) and clean(v):
                    R.violation("H03.init", f, "member %s of a new object is indeterminate" % x)
                elif uninit_in(v):
                    R.undecided("H03.init", f, "member %s" % x)
                else:
                    R.proved("H03.init", f, "member %s is initialised" % x)


# ---------------------------------------------------------------- compiler flow diagnostics
WARN = ["return-type", "uninitialized", "return-local-addr", "sequence-point", "mismatched-new-delete",
        "delete-non-virtual-dtor", "nonnull", "div-by-zero", "sizeof-pointer-memaccess", "format"]


def h02(R):
    """the compiler's control-flow diagnostics (on its unoptimised IR) for constructs that are undefined whenever they are reached"""
    p = program(ALL)
    fs = {}
    for f in p.funcs.values():
        if f.get("b") is not None and not f.get("implicit"):
            fs.setdefault(f.get("file", ""), []).append(f)
            R.funcs.add(f["f"])
    jobs = []
    cxx = next((c for c in ("g++-11", "g++") if shutil.which(c)), None)
    if not cxx:
        raise FA.InfraError("no g++")
    for u in ALL:
        src, extra = FA.UNITS[u]
        jobs.append(subprocess.Popen([cxx] + [x for x in FA.FLAGS if x not in ("-O3", "-Wno-everything")] + ["-O0", "-fkeep-inline-functions", "-S", "-o", "/dev/null"] +
                                     ["-W" + w for w in WARN] + extra + [src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    seen = {}
    for j in jobs:
        _, err = j.communicate()
        if j.returncode:
            raise FA.InfraError("g++: " + err[-300:])
        for m in re.finditer(r"^(\S+?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]$", err, re.M):
            if m.group(1).startswith(FA.PKG):
                seen[(m.group(1)[len(FA.PKG) + 1:], int(m.group(2)))] = m.group(3), m.group(4)
    bad = set()
    for (path, line), (text, w) in sorted(seen.items()):
        c = [f for f in fs.get(path, ()) if f["L"] <= line]
        f = max(c, key=lambda f: f["L"]) if c else {"f": path, "file": path, "L": line, "n": path, "q": path}
        bad.add(f["f"])
        R.violation("H02." + w, f, text, line)
    for path, l in sorted(fs.items()):
        for f in l:
            if f["f"] not in bad:
                R.proved("H02.flow", f, "no undefined construct on any path")


def scalar(t):
    t = t.replace("const ", "")
    return t in ("bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long",
                 "unsigned long", "float", "double", "long long", "unsigned long long") or t.endswith("*")


RULES = {"R01": r01, "R02": r02, "R03": r03, "R04": r04, "C01": c01, "H01": h01, "H02": h02, "H03": h03, "H04": h04, "H05": h05}
