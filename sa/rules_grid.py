"""Voxel grid: addressing, storage, movement, rays, windows."""
from fractions import Fraction

from .rules import *
from .rules_pose import args_of
from .rules_reg import val, rets
from .facts import bare
from .values import LP, Vec, Iter, Rec
from .types import tinfo, strip

UNITS = ["core"]
V = "slamuk::VoxelGrid2D"
CELL = "slamuk::NDTCell"
Q = PL.Q
HALF = P(Q(1, 2))


def sym(n, integer=False, nonneg=False):
    return Poly.atom(("in", ("sym", n)), integer, nonneg)


S = sym("s", False, True)


class Grid:
    """the fields of a grid, found through its public accessors"""

    def __init__(self, R, p):
        self.R, self.p = R, p
        r = rec_of(p, V)
        if not r:
            raise Anchor(V)
        self.ty = {x["n"]: strip(x["t"]) for x in r[0]["fields"]}
        self.n = {}
        for g, k in (("left", "L"), ("right", "R"), ("up", "U"), ("down", "D"), ("getCellSize", "s"), ("validCells", "valid")):
            for o in rets(R, p, R.one(p, V + "::" + g, 0)):
                a = val(o).as_atom() if isinstance(val(o), Poly) else None
                if a and a[0] == "in" and len(a[1]) == 2 and a[1][0] == "this":
                    self.n[k] = a[1][1]
        self.n["cells"] = field(r[0], "cells_", t=lambda t: t.startswith("std::vector"))
        for k, d in (("L", "width_left_"), ("R", "width_right_"), ("U", "height_up_"), ("D", "height_down_"), ("s", "cell_size_"), ("valid", "valid_cells_")):
            self.n.setdefault(k, d)
        for k, x in self.n.items():
            if x not in self.ty:
                raise Anchor("%s::%s" % (V, x))
        rest = [x for x in self.ty if x not in self.n.values()]
        self.half = "cell_size_half_" if "cell_size_half_" in rest else None
        if self.half is None and len(rest) == 1 and tinfo(self.ty[rest[0]]).k == "float":
            self.half = rest[0]
        self.extra = [x for x in rest if x != self.half]

    def fn(self, name, n, **kw):
        return self.R.need(self.p, V + "::" + name, n, **kw)

    def dim(self, k, base="this"):
        return Poly.atom(("in", (base, self.n[k])), True, True)

    def pre(self, shape=None, mask=None, base="this", facts=()):
        """initial state: the cell size is s, the grid is shape = (left, right, up, down) with
        the cells of mask in place (all when None); a grid of unknown shape without shape"""
        def go(E):
            st = E.st.store
            B = (base,)
            st[B + (self.n["s"],)] = S
            if self.half:
                st[B + (self.half,)] = S * HALF
            for x in self.extra:
                st[B + (x,)] = E.unk("field", 0, self.ty[x])
            if E.st.facts.decide(mkc(P(0) - S, "<")) is not True:
                E.st.facts.assume(mkc(P(0) - S, "<"))
            for c in facts:
                E.st.facts.assume(c)
            if shape is None:
                return
            for k, v in zip("LRUD", shape):
                st[B + (self.n[k],)] = P(v)
            n = size(shape)
            c = B + (self.n["cells"],)
            st[c + ("#base",)] = E.initpath(c)
            st[c + ("#len",)] = P(n)
            for i in range(n):
                st[c + (("[]", P(i)),)] = old(i, B) if mask is None or mask[i] else Ptr(None)
            st[B + (self.n["valid"],)] = P(n if mask is None else sum(mask))
        return go

    def run(self, f, args, pre, rule=None, **kw):
        """partitions that return; a null pointer used on the way is a violation of rule"""
        outs = self.R.run(self.p, f, args=args, pre=pre, **kw)
        if outs is None:
            return []
        for L, fa in self.R.engine.crashes:
            gs = list(fa.lst)
            if all(gclean(g) for g in gs) and refute.feasible(gs):
                self.R.violation(rule or self.R.pid + ".null", f, "uses a cell that does not exist" + where(gs), L)
            else:
                self.R.undecided(rule or self.R.pid + ".null", f, "uses a cell that may not exist", L)
        res = [o for o in outs if o.kind == "ret"]
        if not res and not self.R.engine.crashes:
            self.R.undecided(self.R.pid + ".none", f, "no analysed path returns")
        return res

    # ---- state of a partition
    def num(self, o, k, base="this"):
        v = at(o, base, self.n[k])
        return self.dim(k, base) if v is None else v

    def path(self, base="this"):
        return (base, self.n["cells"])

    def length(self, o, base="this"):
        c = self.path(base)
        v = o.st.store.get(c + ("#len",))
        if v is None:
            x = o.st.store.get(c)
            v = x.n if isinstance(x, Vec) else None
        return v

    def cell(self, o, i, base="this"):
        """what slot i holds: Ptr, or None when not known"""
        c = self.path(base)
        v = o.st.store.get(c + (("[]", P(i)),))
        if v is not None:
            return v
        b = o.st.store.get(c + ("#base",))
        x = o.st.store.get(c)
        if b == (("zero",),) or isinstance(x, Vec) and x.base == (("zero",),):
            return Ptr(None)
        return None

    def content(self, o, base="this"):
        n = self.length(o, base)
        if not isinstance(n, Poly) or not n.is_const():
            return None
        return [self.cell(o, i, base) for i in range(int(n.cval()))]

    def shape(self, rule, f, o, want, what, base="this"):
        ok = True
        for k, v, w in zip("LRUD", want, ("to the left", "to the right", "upwards", "downwards")):
            ok &= self.R.same(rule, f, o, self.num(o, k, base), P(v), "%s: cells %s" % (what, w)) is True
        n = self.length(o, base)
        if n is None:
            n = Poly.atom(("unk", "len", 0))
        ok &= self.R.same(rule, f, o, n, P(size(want)), "%s: storage for width x height cells" % what) is True
        return ok

    def slots(self, rule, f, o, want, what, base="this"):
        """want: one entry per slot: number of an old cell, None for empty, 'new', or a path"""
        for i, w in enumerate(want):
            g = self.cell(o, i, base)
            t = "%s: slot %d" % (what, i)
            if w == "new":
                self.R.check(rule, f, True if isinstance(g, Ptr) and isnew(g) else None if g is None or not clean(g) or not settled(o) else False, "%s holds a new cell, has %s" % (t, short(g)))
                continue
            self.R.same(rule, f, o, g, Ptr(None) if w is None else old(w) if isinstance(w, int) else w, t)

    def indices(self, rule, f, o, what):
        """every access to the storage is within it"""
        c = self.path()
        for e in sub(o.st.ev):
            if e["k"] == "index" and e["a"][0] == c:
                i, n = e["a"][1], e["a"][2]
                if i.is_const() and n.is_const():
                    ok = 0 <= i.cval() < n.cval()
                    self.R.check(rule, f, True if ok else False if settled(o) else None, "%s: slot %s of %s" % (what, i, n), e.get("L"))
                else:
                    self.R.undecided(rule, f, "%s: slot %s of %s" % (what, short(i), short(n)), e.get("L"))

    def count(self, rule, f, o, what, base="this"):
        """the number of valid cells is the number of slots in use"""
        c = self.content(o, base)
        if c is None or any(not isinstance(x, Ptr) or (x.path is not None and not x.sure and not isnew(x)) for x in c):
            self.R.undecided(rule, f, "%s: contents not known" % what)
            return
        n = sum(1 for x in c if x.path is not None)
        self.R.same(rule, f, o, self.num(o, "valid", base), P(n), "%s: number of valid cells" % what)


def old(i, base=("this",)):
    return Ptr((("cell", base, i), "*"), True)


def isnew(x):
    return x.path is not None and isinstance(x.path[0], tuple) and x.path[0][0] == "new"


def settled(o):
    """can the partition be reached, and is it fully understood"""
    gs = list(o.facts.lst)
    return all(gclean(g) for g in gs) and bool(refute.feasible(gs + refute.loop_conds(o.st.ev)))


def size(sh):
    return (sh[0] + sh[1] + 1) * (sh[2] + sh[3] + 1)


def slot(sh, k, m):
    """number of the slot of the cell in column k and row m, counted from the origin; None outside"""
    L, R, U, D = sh
    if not (-L <= k <= R and -D <= m <= U):
        return None
    return (U - m) * (L + R + 1) + k + L


def grid(sh):
    """(k, m) of every slot in storage order"""
    L, R, U, D = sh
    return [(k, m) for m in range(U, -D - 1, -1) for k in range(-L, R + 1)]


def masks(sh):
    n = size(sh)
    out = [None]
    if n > 1:
        out.append([i % 2 for i in range(n)])
        out.append([(i * i + i // 3) % 3 != 1 for i in range(n)])
    out.append([0] * n)
    return out


def pickm(sh, ms):
    # patterns asked for: None for a full grid, numbers for masks()
    a = masks(sh)
    return [a[0] if i is None else a[min(i, len(a) - 1)] for i in ms]


def has(mask, i):
    return mask is None or bool(mask[i])


def box(k, m, tag=""):
    """a point anywhere in cell (k, m), with the facts saying so: [x, y], facts"""
    f, g = sym("f" + tag), sym("g" + tag)
    facts = [mkc(P(0) - HALF - f, "<="), mkc(f - HALF, "<"), mkc(P(0) - HALF - g, "<"), mkc(g - HALF, "<=")]
    return [(k + f) * S, (m + g) * S], facts


def vec2(xs):
    return Mat(2, 1, list(xs))


SHAPES = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1), (2, 0, 0, 1), (0, 2, 1, 1), (1, 2, 2, 0)]
DEEP = [(2, 2, 2, 2), (0, 3, 3, 0), (3, 0, 0, 3), (3, 1, 0, 2)]


def shapes(R):
    return SHAPES + (DEEP if R.tier != "quick" else [])


# ---------------------------------------------------------------- addressing
def v01(R):
    p = program(UNITS)
    g = Grid(R, p)
    k, m = sym("k", True), sym("m", True)
    # a whole cell, its left border, its upper border
    for b in (box(k, m), edge(k, m, Q(-1, 2), Q(1, 3)), edge(k, m, Q(1, 4), Q(1, 2))):
        addressed(R, p, g, k, m, *b)
    for n, w in (("width", g.dim("L") + g.dim("R") + 1), ("height", g.dim("U") + g.dim("D") + 1)):
        for f in g.fn(n, 0):
            for o in g.run(f, [], g.pre()):
                R.same("V01.size", f, o, val(o), w, "%s counts the centre and both sides" % n)
    for f in g.fn("setCellSize", 1):
        a = args_of(p, f)[0]
        for o in rets(R, p, f):
            R.same("V01.cellsize", f, o, at(o, "this", g.n["s"]), a, "the cell size is taken over")
            if g.half:
                R.same("V01.cellsize", f, o, at(o, "this", g.half), a * HALF, "half of the cell size")


def edge(k, m, f, g):
    return [(k + P(f)) * S, (m + P(g)) * S], []


def addressed(R, p, g, k, m, xy, facts):
    L, Rt, U, D = (g.dim(x) for x in "LRUD")
    W = L + Rt + 1
    within = [mkc(P(0) - L - k, "<="), mkc(k - Rt, "<="), mkc(P(0) - D - m, "<="), mkc(m - U, "<=")]
    beyond = [neg(c) for c in within]
    idx = (U - m) * W + k + L
    for f in g.fn("isInside", 1):
        for o in g.run(f, [vec2(xy)], g.pre(facts=facts)):
            v = val(o)
            if isinstance(v, Bool) and v.c is True:
                for c in within:
                    R.holds("V01.inside", f, o, c, "a point counts as inside only when its cell is in the grid")
            elif isinstance(v, Bool) and v.c is False:
                R.implies("V01.outside", f, o, beyond, "a point of a cell of the grid counts as inside")
            else:
                R.same("V01.inside", f, o, v, Bool(True), "inside", within)
                for c in beyond:
                    R.same("V01.outside", f, o, v, Bool(False), "outside", [c])
    for n in ("cellExists", "getCellPtr", "removeCell", "operator[]"):
        for f in g.fn(n, 1):
            for o in g.run(f, [vec2(xy)], g.pre(facts=facts + (within if n == "operator[]" else []))):
                es = [e for e in sub(o.st.ev) if e["k"] == "index" and e["a"][0] == g.path()]
                for e in es:
                    for c in within:
                        R.holds("V01.bound", f, o, c, "the storage is read only for points of the grid", L=e.get("L"))
                    R.same("V01.slot", f, o, e["a"][1], idx, "the slot is row x width + column", L=e.get("L"))
                if not es:
                    R.implies("V01.lookup", f, o, beyond, "a point of the grid is looked up")
                v = val(o)
                if n == "getCellPtr":
                    if es:
                        R.same("V01.value", f, o, v, Ptr(g.path() + (("[]", idx), "*")) if isinstance(v, Ptr) and v.path is not None else v, "the cell of that slot")
                    else:
                        R.same("V01.value", f, o, v, Ptr(None), "no cell outside the grid")
                elif n in ("cellExists", "removeCell"):
                    slotp = g.path() + (("[]", idx), "*")
                    R.same("V01.value", f, o, v, Bool(True), "an existing cell is reported", within + [("t", ("null", slotp), False)])
                    R.same("V01.value", f, o, v, Bool(False), "a missing cell is reported", within + [("t", ("null", slotp), True)])
                    for c in beyond:
                        R.same("V01.value", f, o, v, Bool(False), "nothing outside the grid", [c])
    for f in g.fn("getCentroid", 1):
        for o in g.run(f, [vec2(xy)], g.pre(facts=facts + within)):
            v = val(o)
            for i, (x, w) in enumerate((("first", k * S), ("second", m * S))):
                R.same("V01.centroid", f, o, v.f.get(x) if isinstance(v, Rec) else None, w, "centre of the cell, coordinate %d" % i)


# ---------------------------------------------------------------- growing and moving
def corner(sh):
    """rectangles to grow to: columns and rows of the corner cells"""
    L, R, U, D = sh
    xs = [(-L, R), (-L - 1, R), (-L, R + 2), (-L - 2, R + 1), (-L + 1, R - 1) if L + R > 1 else (0, 0)]
    ys = [(-D, U), (-D - 1, U), (-D, U + 1), (-D - 2, U + 2), (0, 0)]
    return [(x, y) for x in xs for y in ys]


def grown(sh, mask, new):
    """slots after growing from sh to new: the cells keep their place around the origin"""
    out = []
    for km in grid(new):
        i = slot(sh, *km)
        out.append(i if i is not None and has(mask, i) else None)
    return out


def enlargements(R, g, ms=(None,)):
    """(function, outcome, old shape, mask, new shape, what)"""
    for f in g.fn("enlarge", 4):
        for sh in shapes(R):
            for x, y in corner(sh):
                pts, facts = [], []
                for k, m, t in ((x[0], y[0], "1"), (x[1], y[1], "2")):
                    xy, fs = box(k, m, t)
                    pts += xy
                    facts += fs
                new = (max(sh[0], -x[0]), max(sh[1], x[1]), max(sh[2], y[1]), max(sh[3], -y[0]))
                for mk in pickm(sh, ms):
                    for o in g.run(f, pts, g.pre(sh, mk, facts=facts)):
                        yield f, o, sh, mk, new, "grid %s grown to columns %s..%s, rows %s..%s" % (sh, x[0], x[1], y[0], y[1])


def translations(R, g, ms=(None,)):
    span = (-3, -2, -1, 0, 1, 2, 3)
    for f in g.fn("translate", 2):
        for sh in shapes(R):
            w, h = sh[0] + sh[1] + 1, sh[2] + sh[3] + 1
            for dx in span:
                for dy in span:
                    if abs(dx) > w + 1 or abs(dy) > h + 1 or R.tier == "quick" and abs(dx) > 1 and abs(dy) > 1 and (dx + dy + w) % 2:
                        continue
                    for discard in (True, False):
                        new = sh if discard else (sh[0] + max(-dx, 0), sh[1] + max(dx, 0), sh[2] + max(dy, 0), sh[3] + max(-dy, 0))
                        for mk in pickm(sh, ms):
                            what = "grid %s moved by (%d,%d)%s" % (sh, dx, dy, "" if discard else " with growth")
                            for o in g.run(f, [vec2([P(dx), P(dy)]), Bool(discard)], g.pre(sh, mk)):
                                yield f, o, sh, mk, new, (dx, dy), what


def insertions(R, g, few=True):
    """additions of a cell at a place inside or outside the grid"""
    for f in g.fn("addCell", 3):
        for sh in shapes(R):
            L, Rt, U, D = sh
            for k, m in sorted({(-L, U), (Rt, -D), (0, 0), (-L - 1, 0), (Rt + 1, 0), (0, U + 1), (0, -D - 1), (Rt + 2, U + 2), (-L - 2, -D - 1), (-L - 1, U + 1), (Rt + 1, -D - 2)}):
                xy, facts = box(k, m)
                new = (max(L, -k), max(Rt, k), max(U, m), max(D, -m))
                for mk in masks(sh)[-2 if few else 0:]:
                    for merging in (True, False):
                        what = "grid %s, cell added in column %d, row %d%s" % (sh, k, m, "" if merging else " replacing")
                        for o in g.run(f, [vec2(xy), None, Bool(merging)], g.pre(sh, mk, facts=facts), noinline=[CELL + "::operator+=", CELL + "::computeGaussian"]):
                            yield f, o, sh, mk, new, (k, m), merging, what


def v03(R):
    p = program(UNITS)
    g = Grid(R, p)
    for f, o, sh, mk, new, what in enlargements(R, g):
        g.shape("V03.grown", f, o, new, what)
        g.slots("V03.kept", f, o, grown(sh, mk, new), what)
    for f, o, sh, mk, new, (dx, dy), what in translations(R, g):
        g.shape("V03.shape", f, o, new, what)
        want = []
        for k, m in grid(new):
            i = slot(sh, k - dx, m - dy)
            want.append(i if i is not None and has(mk, i) else None)
        g.slots("V03.moved", f, o, want, what)
    for f, o, sh, mk, new, (k, m), merging, what in insertions(R, g):
        g.shape("V03.fitted", f, o, new, what)
        want = grown(sh, mk, new)
        i = slot(new, k, m)
        if want[i] is None:
            want[i] = "new"
        g.slots("V03.kept", f, o, want, what)


# ---------------------------------------------------------------- number of valid cells
def v02(R):
    p = program(UNITS)
    g = Grid(R, p)
    for f in ctors(p, 0):
        for o in g.run(f, [], None):
            g.count("V02.new", f, o, "a new grid")
    for f, o, sh, mk, new, what in enlargements(R, g, (1,)):
        g.count("V02.grown", f, o, what)
    for f, o, sh, mk, new, d, what in translations(R, g, (1,)):
        g.count("V02.moved", f, o, what)
    for f, o, sh, mk, new, km, merging, what in insertions(R, g):
        g.count("V02.added", f, o, what)
    for f in g.fn("removeCell", 1):
        for sh in shapes(R):
            L, Rt, U, D = sh
            for k, m in grid(sh) + [(-L - 1, 0), (Rt + 1, 0), (0, U + 1), (0, -D - 1)]:
                xy, facts = box(k, m)
                for mk in masks(sh):
                    i = slot(sh, k, m)
                    there = i is not None and has(mk, i)
                    what = "grid %s, cell removed in column %d, row %d" % (sh, k, m)
                    for o in g.run(f, [vec2(xy)], g.pre(sh, mk, facts=facts)):
                        g.count("V02.removed", f, o, what)
                        R.same("V02.removed", f, o, val(o), Bool(there), what + ": reports whether there was a cell")
                        g.slots("V02.removed", f, o, [j if has(mk, j) and j != i else None for j in range(size(sh))], what)
    for f in g.fn("clear", 0):
        for sh in shapes(R):
            for mk in masks(sh):
                for o in g.run(f, [], g.pre(sh, mk)):
                    what = "grid %s cleared" % (sh,)
                    g.count("V02.cleared", f, o, what)
                    g.shape("V02.cleared", f, o, sh, what)
                    g.slots("V02.cleared", f, o, [None] * size(sh), what)
    for f, o, sh, mk, a, b, what in rays(R, g):
        g.count("V02.traced", f, o, what)


def ctors(p, n, move=False):
    return [f for f in p.funcs.values() if f.get("ctor") and len(f["ps"]) == n and bare(f.get("cls") or "") == V and f.get("b") is not None
            and (not n or f["ps"][0]["t"].endswith("&&") == move)]


# ---------------------------------------------------------------- copies
def v04(R):
    p = program(UNITS)
    g = Grid(R, p)
    cs = ctors(p, 1)
    if not cs:
        raise Anchor(V + " copy constructor")
    keep = {}
    for f, assign in [(f, False) for f in cs] + [(f, True) for f in g.fn("operator=", 1) if not f["ps"][0]["t"].endswith("&&")]:
        q = ("p", f["ps"][0]["n"])
        for sh in shapes(R):
            for mk in masks(sh):
                what = "copy of grid %s" % (sh,)
                src = g.pre(sh, mk, base=q)
                own = g.pre((1, 1, 0, 0), None)

                def both(E):
                    src(E)
                    if assign:
                        own(E)
                        for a, b in (((q,), ("this",)), (("this",), (q,))):
                            E.st.facts.assume(("t", ("peq", a, b), False))
                for o in g.run(f, None, both):
                    g.shape("V04.shape", f, o, sh, what)
                    R.same("V04.cellsize", f, o, g_at(o, "this", g.n["s"]), S, what + ": cell size")
                    if g.half:
                        R.same("V04.cellsize", f, o, g_at(o, "this", g.half), S * HALF, what + ": half of the cell size")
                    g.slots("V04.cells", f, o, ["new" if has(mk, i) else None for i in range(size(sh))], what)
                    g.slots("V04.source", f, o, [old(i, (q,)) if has(mk, i) else None for i in range(size(sh))], what + ", the original", base=q)
                    g.count("V04.count", f, o, what)
                    seen = []
                    E = R.engine
                    E.st = o.st
                    for i in range(size(sh)):
                        c = g.cell(o, i)
                        if not isinstance(c, Ptr) or not isnew(c):
                            continue
                        R.check("V04.own", f, c.path not in seen, what + ": slot %d has a cell of its own" % i)
                        seen.append(c.path)
                        samecell(R, "V04.value", f, o, E, c.path, (("cell", (q,), i), "*"), what + ": slot %d" % i)
    for f in g.fn("operator=", 1):
        if f["ps"][0]["t"].endswith("&&"):
            continue
        for o in g.run(f, [LP(("this",), V)], g.pre((1, 0, 0, 1), [1, 0, 1, 1])):
            g.shape("V04.self", f, o, (1, 0, 0, 1), "assignment to itself")
            g.slots("V04.self", f, o, [0, None, 2, 3], "assignment to itself")
    for f in g.fn("clone", 0):
        for o in g.run(f, [], g.pre((1, 2, 0, 1), None)):
            v = val(o)
            if not isinstance(v, Rec):
                R.undecided("V04.clone", f, "result not interpreted")
                continue
            R.same("V04.clone", f, o, v.f.get(g.n["s"]), S, "an empty grid of the same cell size")
            if g.half:
                R.same("V04.clone", f, o, v.f.get(g.half), S * HALF, "half of the cell size")
            for k in "LRUD":
                R.same("V04.clone", f, o, v.f.get(g.n[k]), P(0), "an empty grid has one cell")


def g_at(o, *path):
    return o.st.store.get(tuple(path))


def samecell(R, rule, f, o, E, a, b, what):
    """do the cells at paths a and b have the same value"""
    r = rec_of(R.prog if hasattr(R, "prog") else program(UNITS), CELL)
    for x in r[0]["fields"]:
        t = strip(x["t"])
        if tinfo(t).k in ("vec", "cls", "sptr"):
            continue
        va, vb = E.read(a + (x["n"],), t), E.read(b + (x["n"],), t)
        R.same(rule, f, o, va, vb, "%s: %s is copied" % (what, x["n"]))


# ---------------------------------------------------------------- rays
DIRS = [(0, 0), (1, 0), (3, 0), (-2, 0), (0, 2), (0, -3), (2, 2), (-3, 3), (3, -1), (2, 1), (-1, 3), (-3, -2)]
SPOTS = [((0, 0, 0, 0), (0, 0)), ((3, 3, 3, 3), (0, 0)), ((1, 3, 2, 1), (-1, 0)), ((2, 1, 1, 3), (0, -1)), ((0, 4, 0, 0), (0, 0)), ((0, 0, 3, 1), (0, -1))]


def rays(R, g):
    """traced rays: (function, outcome, shape, mask, start, end, half widths, what); coordinates in
    cells, start and end at the centre of the small box of points the run stands for"""
    for f in g.fn("rayTrace", 2):
        for sh, (k, m) in SPOTS + ([((2, 2, 2, 2), (1, -1)), ((4, 4, 1, 1), (-3, 1)), ((1, 1, 4, 4), (1, 4))] if R.tier != "quick" else []):
            for j, (dx, dy) in enumerate(DIRS if R.tier == "quick" else DIRS + [(4, 1), (-1, -4), (5, 2), (-2, 4), (4, 0), (0, 5)]):
                n = 2 * max(abs(dx), abs(dy), 1)
                a, b = (j * 5) % n - n // 2, (j * 3 + 1) % n - n // 2
                f1, g1 = sym("f"), sym("g")
                facts = [mkc(P(Q(a, n)) - f1, "<"), mkc(f1 - P(Q(a + 1, n)), "<"), mkc(P(Q(b, n)) - g1, "<"), mkc(g1 - P(Q(b + 1, n)), "<")]
                x, y = k + Q(2 * a + 1, 2 * n), m + Q(2 * b + 1, 2 * n)
                for mk in masks(sh)[:2] if j % 2 else masks(sh)[-1:]:
                    what = "grid %s, ray from (%s,%s) by (%d,%d)" % (sh, x, y, dx, dy)
                    for o in g.run(f, [vec2([(k + f1) * S, (m + g1) * S]), vec2([(k + dx + f1) * S, (m + dy + g1) * S])], g.pre(sh, mk, facts=facts)):
                        yield f, o, sh, mk, (x, y), (x + dx, y + dy), what
    for f in g.fn("rayTrace", 1):
        for sh in ((2, 2, 2, 2), (0, 3, 1, 0)):
            for dx, dy in ((2, 0), (-2, 1), (0, -2), (5, 0)):
                for mk in masks(sh)[-1:]:
                    what = "grid %s, ray from the origin by (%d,%d)" % (sh, dx, dy)
                    # ends a little off the centre of a cell so that no sample is on a border
                    ex, ey = Q(dx) + (Q(1, 7) if dx > 0 else Q(-1, 7) if dx < 0 else 0), Q(dy) + (Q(1, 9) if dy > 0 else Q(-1, 9) if dy < 0 else 0)
                    for o in g.run(f, [vec2([P(ex) * S, P(ey) * S])], g.pre(sh, mk)):
                        yield f, o, sh, mk, (Q(0), Q(0)), (ex, ey), what


def pointers(v):
    """the pointers in a list, or None when it is not known"""
    if not isinstance(v, Vec) or not v.n.is_const():
        return None
    d = {q: x for q, x in v.ent}
    out = []
    for i in range(int(v.n.cval())):
        x = d.get((("[]", P(i)),))
        if not isinstance(x, Ptr):
            return None
        out.append(x)
    return out


def near(q):
    """column of a coordinate"""
    return (q + Q(1, 2)).__floor__()


def row(q):
    return -((Q(1, 2) - q).__floor__())


def crossed(a, b, k, m):
    """does the segment from a to b meet cell (k, m)"""
    lo, hi = Q(0), Q(1)
    for s, e, c in ((a[0], b[0], k), (a[1], b[1], m)):
        d = e - s
        for sg in (1, -1):
            # sg * (s + t d - c) <= 1/2
            r = Q(1, 2) - sg * (s - c)
            if d * sg == 0:
                if r < 0:
                    return False
            elif d * sg > 0:
                hi = min(hi, r / (d * sg))
            else:
                lo = max(lo, r / (d * sg))
    return lo <= hi


def stretch(a, b, sh):
    """columns (or rows, for a steep ray) strictly between the cells of a and b in which the ray is in the grid"""
    i = 0 if abs(b[0] - a[0]) >= abs(b[1] - a[1]) else 1
    d = b[i] - a[i]
    if d == 0:
        return i, []
    fl = near if i == 0 else row
    s, e = fl(a[i]), fl(b[i])
    st = 1 if e > s else -1
    out = []
    for c in range(s + st, e, st):
        if i == 0 and not -sh[0] <= c <= sh[1] or i == 1 and not -sh[3] <= c <= sh[2]:
            break
        ts = [(c + h - a[i]) / d for h in (Q(-1, 2), Q(1, 2))]
        o = [a[1 - i] + t * (b[1 - i] - a[1 - i]) for t in ts]
        lo, hi = (-sh[3], sh[2]) if i == 0 else (-sh[0], sh[1])
        if not all(lo - Q(1, 2) < x < hi + Q(1, 2) for x in o):
            break
        out.append(c)
    return i, out


def v05(R):
    p = program(UNITS)
    g = Grid(R, p)
    for f, o, sh, mk, a, b, what in rays(R, g):
        g.shape("V05.shape", f, o, sh, what)
        ps = pointers(val(o))
        if ps is None:
            R.undecided("V05.list", f, "%s: result not known: %s" % (what, short(val(o))))
            continue
        at_ = {}
        for i, km in enumerate(grid(sh)):
            c = g.cell(o, i)
            if isinstance(c, Ptr) and c.path is not None:
                at_[c.path] = km
        got = [at_.get(x.path) for x in ps]
        ok = None if not settled(o) else False

        def need(rule, cond, text):
            R.check(rule, f, True if cond else ok, "%s: %s: %s" % (what, text, got))
        need("V05.stored", all(x is not None for x in got), "every cell of the ray exists in the grid")
        if not all(x is not None for x in got):
            continue
        s, e = (near(a[0]), row(a[1])), (near(b[0]), row(b[1]))
        need("V05.start", bool(got) and got[0] == s, "the ray begins in the cell of its start")
        need("V05.through", all(crossed(a, b, *km) for km in got), "only cells the ray passes")
        need("V05.steps", all(x != y and abs(x[0] - y[0]) <= 1 and abs(x[1] - y[1]) <= 1 for x, y in zip(got, got[1:])), "neighbouring cells, none twice in a row")
        need("V05.stop", s == e or e not in got, "the cell of the end is left out")
        i, cols = stretch(a, b, sh)
        if a[0].denominator != 1 or a[1].denominator != 1:
            need("V05.covers", set(cols) <= {km[i] for km in got}, "no gap before the end")
        for j in range(size(sh)):
            if has(mk, j):
                R.same("V05.kept", f, o, g.cell(o, j), old(j), what + ": slot %d" % j)
    for f in g.fn("rayTrace", 2):
        for sh in shapes(R)[:5]:
            L, Rt, U, D = sh
            for k, m in ((-L - 1, 0), (Rt + 1, 0), (0, U + 1), (0, -D - 1)):
                dx, dy = (k < 0) - (k > 0), (m < 0) - (m > 0)
                f1, g1 = sym("f"), sym("g")
                facts = [mkc(P(0) - f1, "<"), mkc(f1 - P(Q(1, 4)), "<"), mkc(P(0) - g1, "<"), mkc(g1 - P(Q(1, 4)), "<")]
                mk = masks(sh)[-1]
                for o in g.run(f, [vec2([(k + f1) * S, (m + g1) * S]), vec2([(k + 2 * dx + f1) * S, (m + 2 * dy + g1) * S])], g.pre(sh, mk, facts=facts)):
                    what = "grid %s, ray from outside in column %d, row %d" % (sh, k, m)
                    v = val(o)
                    R.same("V05.outside", f, o, v.n if isinstance(v, Vec) else None, P(0), what + ": no cells")
                    g.slots("V05.outside", f, o, [None] * size(sh), what)


# ---------------------------------------------------------------- memory
def v06(R):
    p = program(UNITS)
    g = Grid(R, p)
    for f, o, sh, mk, new, what in enlargements(R, g, (1,)):
        g.indices("V06.grow", f, o, what)
    for f, o, sh, mk, new, d, what in translations(R, g, (1,)):
        g.indices("V06.move", f, o, what)
    for f, o, sh, mk, new, km, merging, what in insertions(R, g):
        g.indices("V06.add", f, o, what)
    for f, o, sh, mk, a, b, what in rays(R, g):
        g.indices("V06.ray", f, o, what)
    for f, o, sh, mk, want, what in windows(R, g):
        g.indices("V06.window", f, o, what)
    for n in ("cellExists", "getCellPtr", "removeCell"):
        for f in g.fn(n, 1):
            for sh in shapes(R):
                L, Rt, U, D = sh
                for k, m in sorted(set(grid(sh) + [(-L - 1, 0), (Rt + 1, 0), (0, U + 1), (0, -D - 1), (Rt + 1, -D - 1), (-L - 1, U + 1)])):
                    xy, facts = box(k, m)
                    i = slot(sh, k, m)
                    for mk in masks(sh)[1:]:
                        what = "grid %s, %s in column %d, row %d" % (sh, n, k, m)
                        for o in g.run(f, [vec2(xy)], g.pre(sh, mk, facts=facts)):
                            g.indices("V06.lookup", f, o, what)
                            there = i is not None and has(mk, i)
                            R.same("V06.result", f, o, val(o), Bool(there) if n != "getCellPtr" else old(i) if there else Ptr(None), what)
                            if n != "removeCell":
                                g.slots("V06.result", f, o, [j if has(mk, j) else None for j in range(size(sh))], what)
    for n in ("getValidCells", "getValidCellsPtr", "clear"):
        for f in g.fn(n, 0):
            for sh in shapes(R):
                for mk in masks(sh):
                    for o in g.run(f, [], g.pre(sh, mk)):
                        g.indices("V06.all", f, o, "grid %s, %s" % (sh, n))


# ---------------------------------------------------------------- lists of cells
def windows(R, g):
    for f in g.fn("getNeighbors", 2):
        for sh in shapes(R) + [(2, 2, 2, 1), (4, 5, 4, 4)]:
            L, Rt, U, D = sh
            big = size(sh) > 25
            for k, m in [(0, 0), (-3, 2), (3, -4)] if big else sorted(set(grid(sh) + [(-L - 1, 0), (Rt + 1, 0), (0, U + 1), (0, -D - 1)])):
                xy, facts = box(k, m)
                for r in (1, 3, 4, 5, 6) if big else (0, 1, 2, 4):
                    for mk in masks(sh)[:1] if big or r > 2 else masks(sh)[:3]:
                        want = []
                        if slot(sh, k, m) is not None:
                            for a, b in grid(sh):
                                i = slot(sh, a, b)
                                if abs(a - k) <= r and abs(b - m) <= r and has(mk, i):
                                    want.append(i)
                        what = "grid %s, within %d of column %d, row %d" % (sh, r, k, m)
                        for o in g.run(f, [vec2(xy), P(r)], g.pre(sh, mk, facts=facts)):
                            yield f, o, sh, mk, want, what


def number(x):
    """which original cell a pointer or path refers to"""
    q = x.path if isinstance(x, Ptr) else x
    if q and isinstance(q[0], tuple) and q[0][0] == "cell":
        return q[0][2]
    return None


def v07(R):
    p = program(UNITS)
    g = Grid(R, p)

    def listed(rule, f, o, ps, want, what):
        if ps is None:
            R.undecided(rule, f, "%s: result not known: %s" % (what, short(val(o))))
            return
        got = sorted(-1 if number(x) is None else number(x) for x in ps)
        R.check(rule, f, True if got == want else False if settled(o) else None, "%s: the existing cells once each: slots %s, has %s" % (what, want, got))
    for f, o, sh, mk, want, what in windows(R, g):
        listed("V07.window", f, o, pointers(val(o)), want, what)
        g.slots("V07.kept", f, o, [i if has(mk, i) else None for i in range(size(sh))], what)
    for f in g.fn("getValidCellsPtr", 0):
        for sh in shapes(R):
            for mk in masks(sh):
                for o in g.run(f, [], g.pre(sh, mk)):
                    listed("V07.all", f, o, pointers(val(o)), [i for i in range(size(sh)) if has(mk, i)], "grid %s, all cells" % (sh,))
    r = rec_of(p, CELL)
    if not r:
        raise Anchor(CELL)
    plain = [(x["n"], strip(x["t"])) for x in r[0]["fields"] if tinfo(strip(x["t"])).k not in ("vec", "cls", "sptr")]
    for f in g.fn("getValidCells", 0):
        for sh in shapes(R):
            for mk in masks(sh):
                want = [i for i in range(size(sh)) if has(mk, i)]
                for o in g.run(f, [], g.pre(sh, mk)):
                    what = "grid %s, copies of all cells" % (sh,)
                    v = val(o)
                    if not isinstance(v, Vec):
                        R.undecided("V07.copies", f, what + ": result not known")
                        continue
                    R.same("V07.copies", f, o, v.n, P(len(want)), what + ": number")
                    d = {q: x for q, x in v.ent}
                    E = R.engine
                    for j, i in enumerate(want):
                        for x, t in plain:
                            R.same("V07.copies", f, o, d.get((("[]", P(j)), x)), E.init_value((("cell", ("this",), i), "*", x), t), "%s: %s of copy %d" % (what, x, j))


# ---------------------------------------------------------------- adding
def v08(R):
    p = program(UNITS)
    g = Grid(R, p)
    r = rec_of(p, CELL)
    if not r:
        raise Anchor(CELL)
    plain = [(x["n"], strip(x["t"])) for x in r[0]["fields"] if tinfo(strip(x["t"])).k not in ("vec", "cls", "sptr")]
    for f, o, sh, mk, new, (k, m), merging, what in insertions(R, g, False):
        q = (("p", f["ps"][1]["n"]),)
        i = slot(new, k, m)
        c = g.cell(o, i)
        was = grown(sh, mk, new)[i]
        merges = calls(o, "operator+=") + [e for e in o.st.ev if e["k"] == "call" and str(e["a"][0]).endswith("NDTCell::operator+=")]
        if not isinstance(c, Ptr) or c.path is None:
            R.check("V08.there", f, None if c is None or not settled(o) else False, what + ": the cell is in the grid")
            continue
        E = R.engine
        E.st = o.st
        if was is not None and merging:
            R.check("V08.merged", f, True if len(merges) == 1 else False if settled(o) else None, "%s: merged exactly once, %d merges" % (what, len(merges)))
            for e in merges[:1]:
                R.same("V08.merged", f, o, getattr(e.get("obj"), "path", None), c.path, what + ": into the cell of the place")
            for x, t in plain:
                v = E.read(c.path + (x,), t)
                R.check("V08.merged", f, True if not clean(v) or veq(v, E.init_value(c.path + (x,), t)) else False if settled(o) else None, "%s: %s is the result of the merge" % (what, x))
            continue
        R.check("V08.merged", f, True if not merges else False if settled(o) else None, what + ": nothing to merge with")
        for x, t in plain:
            R.same("V08.value", f, o, E.read(c.path + (x,), t), E.init_value(q + (x,), t), "%s: %s of the added cell" % (what, x))


RULES = {"V01": v01, "V02": v02, "V03": v03, "V04": v04, "V05": v05, "V06": v06, "V07": v07, "V08": v08}
