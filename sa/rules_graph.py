"""Pose graph: ids, lookup, adjacency, iteration."""
from .rules import *

UNITS = ["core"]
G = "slamuk::Graph"


class Roles:
    def __init__(self, R):
        self.p = program(UNITS)
        rs = rec_of(self.p, G)
        if not rs:
            raise Anchor("class slamuk::Graph not found")
        r = rs[0]
        self.edges = field(r, "edges_", t=lambda t: "unique_ptr<slamuk::Edge" in t)
        self.nodes = field(r, "nodes_", t=lambda t: "unique_ptr<slamuk::Node" in t)
        names = [x["n"] for x in r["fields"] if strip(x["t"]).replace("unsigned long", "size_t").startswith("std::vector<size_t")]
        if "id_edge_pool_" in names:
            self.epool = "id_edge_pool_"
        else:
            # the list of ids removeEdge adds to
            pushed = set()
            for f in self.p.find(G + "::removeEdge"):
                for o in Engine(self.p).run(f):
                    pushed |= {x for x in names if effects(o, ("this", x))}
            self.epool = pushed.pop() if len(pushed) == 1 else field(r, "id_edge_pool_")
        rest = [x for x in names if x != self.epool]
        self.npool = "id_node_pool_" if "id_node_pool_" in rest else rest[0] if len(rest) == 1 else None
        n = rec_of(self.p, "slamuk::Node")[0]
        e = rec_of(self.p, "slamuk::Edge")[0]
        # private fields by what the public accessors return
        self.nid = getter(R, self.p, "slamuk::Node::getId")
        self.eid = getter(R, self.p, "slamuk::Edge::getId")
        self.pose = getter(R, self.p, "slamuk::Node::getPose")
        self.efrom = getter(R, self.p, "slamuk::Edge::getFrom")
        self.eto = getter(R, self.p, "slamuk::Edge::getTo")
        self.out = field(n, "edges_out_")
        self.inn = field(n, "edges_in_")
        self.PE = ("this", self.edges)
        self.PN = ("this", self.nodes)
        self.PP = ("this", self.epool)
        self.ne = Poly.atom(("len", self.PE), True, True)
        self.nn = Poly.atom(("len", self.PN), True, True)
        self.np = Poly.atom(("len", self.PP), True, True)


def counted(v, n, slots_, removed):
    """v with the number of non-empty slots written as slots minus removed ids; and
    whether another conditional count is left"""
    out, odd = PL.ZERO, False
    for m, c in v.t.items():
        at = PL.atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if at and at[0] == "csum" and at[1] == n and len(at[2]) == 1 and at[2][0][1] == PL.ONE:
            gs = [x for x in at[2][0][0] if x[0] != "c"]
            if len(gs) == 1 and gs[0][0] == "t" and gs[0][2] is False and gs[0][1][0] == "null" and gs[0][1][1][:len(slots_)] == slots_:
                out = out + (n - removed) * c
                continue
        if any(PL.mentions(PL.atom_of(a), lambda t: isinstance(t, tuple) and t and t[0] in ("csum", "sum")) for a, _ in m):
            odd = True
        out = out + Poly({m: c})
    return out, odd


def getter(R, p, q):
    """name of the field a trivial accessor returns"""
    f = R.one(p, q, 0)
    outs = Engine(p).run(f)
    for o in outs:
        v = o.val
        if isinstance(v, tuple):
            lv = v[0]
            if isinstance(lv, LP) and lv.path[:1] == ("this",) and len(lv.path) == 2:
                return lv.path[1]
            v = v[1]
        if isinstance(v, Poly):
            a = v.as_atom()
            if a and a[0] == "in" and a[1][0] == "this":
                return a[1][1]
        if isinstance(v, Mat):
            for x in v.e:
                a = x.as_atom()
                if a and a[0] == "in" and a[1][0] == "this":
                    return a[1][1]
        if isinstance(v, Ptr) and v.path and v.path[0] == "this":
            return v.path[1]
    raise Anchor("%s does not return a field" % q)


def param(f, i=0):
    return ("p", f["ps"][i]["n"] or "arg%d" % i)


def pval(f, i=0):
    return Poly.atom(("in", (param(f, i),)), True, True)


def under(path, root):
    return isinstance(path, tuple) and path[:len(root)] == root


MUT = ("w", "push", "pop", "clear", "resize", "erase", "eraser", "insert", "reset", "remove", "release", "del")


def effects(o, root):
    """mutations of anything below root in partition o"""
    return [e for e in sub(o.st.ev) if e["k"] in MUT and e["a"] and under(e["a"][0], root)]


def slots(o, root):
    """element writes of a container in partition o: [(index, value, event)]"""
    out = []
    for e in sub(o.st.ev):
        if e["k"] == "w" and under(e["a"][0], root) and len(e["a"][0]) == len(root) + 1:
            ix = e["a"][0][-1]
            if isinstance(ix, tuple) and ix[0] == "[]":
                out.append((ix[1], e["a"][1], e))
    return out


def new_object(v):
    return isinstance(v, Ptr) and v.path and len(v.path) == 1 and v.path[0][0] == "new"


def length(o, root, n0):
    v = o.st.store.get(root + ("#len",))
    return n0 if v is None else v


def g01(R):
    g = Roles(R)
    p = g.p
    # ---- addNode
    for f in R.need(p, G + "::addNode", 1):
        outs = R.run(p, f)
        for o in outs or ():
            if o.kind != "ret":
                continue
            rid = o.val
            R.same("G01.node-id", f, o, rid, g.nn, "addNode returns the index of the new node")
            R.same("G01.node-len", f, o, length(o, g.PN, g.nn), g.nn + 1, "addNode appends exactly one node")
            fin = o.st.store.get(g.PN + (("[]", g.nn),))
            if not new_object(fin):
                R.check("G01.node-slot", f, None if fin is None or not clean(fin) else False,
                        "slot of the new node holds %s" % short(fin))
                continue
            R.proved("G01.node-slot", f)
            R.same("G01.node-objid", f, o, at(o, *fin.path, g.nid), g.nn, "id stored in the new node")
            for ix, v, e in slots(o, g.PN):
                if not PL.equal(ix, g.nn):
                    R.same("G01.node-other", f, o, ix, g.nn, "addNode only writes the new slot", L=e["L"])
    # ---- addEdge
    for f in R.need(p, G + "::addEdge", 1):
        outs = R.run(p, f)
        for o in outs or ():
            if o.kind != "ret" or not isinstance(o.val, Poly):
                continue
            rid = o.val
            if not clean(rid):
                R.undecided("G01.edge-id", f, "id not interpreted: %s" % short(rid))
                continue
            fin = o.st.store.get(g.PE + (("[]", rid),))
            if fin is None and slots(o, g.PE):
                # the edge went somewhere else
                R.same("G01.edge-slot", f, o, slots(o, g.PE)[-1][0], rid, "edge stored at the returned id")
            elif not new_object(fin):
                R.check("G01.edge-slot", f, None if fin is None or not clean(fin) else False,
                        "slot of the returned id holds %s" % short(fin))
            else:
                R.proved("G01.edge-slot", f)
                R.same("G01.edge-objid", f, o, at(o, *fin.path, g.eid), rid, "id stored in the new edge")
            for ix, v, e in slots(o, g.PE):
                if not PL.equal(ix, rid):
                    R.same("G01.edge-other", f, o, ix, rid, "addEdge only writes the slot of the returned id", L=e["L"])
            ln = length(o, g.PE, g.ne)
            pl = effects(o, g.PP)
            if not pl:
                R.same("G01.edge-fresh", f, o, rid, g.ne, "an id not taken from the pool is the next unused one")
                R.same("G01.edge-len", f, o, ln, g.ne + 1, "a fresh id extends the edge list by one")
            elif all(e["k"] in ("pop", "erase") for e in pl) and len(pl) == 1:
                pos = g.np - 1 if pl[0]["k"] == "pop" else pl[0]["a"][1]
                taken = Poly.atom(("in", g.PP + (("[]", pos),)), True, True)
                R.same("G01.edge-reuse", f, o, rid, taken, "a reused id is the one removed from the pool")
                R.same("G01.edge-reuse-len", f, o, ln, g.ne, "reusing an id does not extend the edge list")
                R.holds("G01.edge-reuse-any", f, o, mkc(g.np, "!="), "an id is taken from a non-empty pool")
            else:
                R.undecided("G01.edge-pool", f, "pool handled by %s" % [e["k"] for e in pl])
    # ---- removeEdge
    for f in R.need(p, G + "::removeEdge", 1):
        outs = R.run(p, f)
        eid = pval(f)
        for o in outs or ():
            if o.kind != "ret" or not isinstance(o.val, Bool):
                continue
            if o.val.c is not True:
                continue
            slot = o.st.store.get(g.PE + (("[]", eid),))
            if slot is None:
                sl = slots(o, g.PE)
                if sl:
                    R.same("G01.remove-slot", f, o, sl[-1][0], eid, "removeEdge empties the slot of its argument")
                else:
                    R.check("G01.remove-slot", f, None if touched(o) else False, "a successful removal leaves the edge in its slot")
            else:
                R.same("G01.remove-slot", f, o, slot, Ptr(None), "removeEdge empties the slot of its argument")
            R.same("G01.remove-len", f, o, length(o, g.PE, g.ne), g.ne, "removing an edge keeps all other ids")
            pl = slots(o, g.PP)
            if len(pl) == 1:
                R.same("G01.remove-pool", f, o, pl[0][1], eid, "the removed id goes to the pool")
                R.same("G01.remove-poollen", f, o, length(o, g.PP, g.np), g.np + 1, "the pool grows by one")
            elif len(pl) > 1 and all(clean(v) for _, v, _ in pl):
                R.same("G01.remove-poollen", f, o, length(o, g.PP, g.np), g.np + 1, "the pool grows by one")
            elif not pl:
                R.check("G01.remove-pool", f, None if effects(o, g.PP) else False, "a removed id never reaches the pool")
            else:
                R.undecided("G01.remove-pool", f, "%d pool writes" % len(pl))
            for ix, v, e in slots(o, g.PE):
                if not PL.equal(ix, eid):
                    R.same("G01.remove-other", f, o, ix, eid, "removeEdge only writes the slot of its argument", L=e["L"])
    # ---- counts
    # nodes are never removed: the pool of node ids is empty when nothing fills it
    dead = g.npool is None or not [f for f in p.funcs.values() if f.get("b") is not None and bare(f.get("cls") or "") == G
                                   and not f.get("ctor") and any(effects(o, ("this", g.npool)) for o in R.run(p, f) or ())]
    for q, n, pool, slots_ in (("edgeCount", g.ne, g.PP, g.PE), ("nodeCount", g.nn, ("this", g.npool), g.PN)):
        for f in R.need(p, G + "::" + q, 0):
            for o in R.run(p, f) or ():
                want = n - Poly.atom(("len", pool), True, True) if g.npool or q == "edgeCount" else n
                got = o.val
                if isinstance(got, Poly):
                    got, odd = counted(got, n, slots_, Poly.atom(("len", pool), True, True) if q == "edgeCount" else PL.ZERO)
                    if odd:
                        R.undecided("G01." + q, f, "number of elements in a form not followed")
                        continue
                    if q == "nodeCount" and dead:
                        z = {PL.aid(("len", pool)): PL.ZERO}
                        got, want = PL.subst(got, z), PL.subst(want, z)
                R.same("G01." + q, f, o, got, want, "live elements are counted")
    # ---- nobody else changes the lists
    allowed = {"addEdge", "addNode", "removeEdge", "Graph", "~Graph", "operator="}
    for f in p.funcs.values():
        if not f.get("b") or bare(f["q"]).rsplit("::", 1)[0] != G or f["n"] in allowed or f.get("access", 0) not in (0,):
            continue
        for o in R.run(p, f) or ():
            bad = [e for r in (g.PE, g.PN, g.PP) + ((('this', g.npool),) if g.npool else ()) for e in effects(o, r)]
            R.check("G01.frame", f, not bad, "%s changes %s" % (f["n"], PL.show_path(bad[0]["a"][0]) if bad else ""),
                    bad[0]["L"] if bad else None)
    for cls, idf in (("slamuk::Node", g.nid), ("slamuk::Edge", g.eid)):
        for f in R.need(p, cls + "::setId", 1):
            for o in R.run(p, f) or ():
                R.same("G01.setId", f, o, at(o, "this", idf), pval(f), "setId stores its argument")


def touched(o):
    """did anything not interpreted happen in the partition"""
    return any(e["k"] == "call" and not e.get("inl") for e in sub(o.st.ev)) or bool(o.st.notes)


def gone(g, which, idx):
    """conditions under which the element is not there"""
    out = []
    if which == "edge":
        out.append(("t", ("has", Vec(g.np, g.PP, ()), idx), True))
        out.append(("t", ("null", g.PE + (("[]", idx), "*")), True))
    return out


def g02(R):
    g = Roles(R)
    p = g.p
    for q, root, n, which in (("getEdge", g.PE, g.ne, "edge"), ("getNode", g.PN, g.nn, "node")):
        fs = R.need(p, G + "::" + q, 1)
        if len(fs) < 2:
            raise Anchor("two overloads of %s expected" % q)
        for f in fs:
            idx = pval(f)
            seen = set()
            for o in R.run(p, f) or ():
                seen.add(o.kind)
                if o.kind == "thr":
                    R.check("G02.exc", f, o.val == "std::out_of_range" if isinstance(o.val, str) else None,
                            "%s rejects with %s" % (q, o.val), o.L)
                    R.implies("G02.reject", f, o, [mkc(n - idx, "<=")] + gone(g, which, idx),
                              "%s rejects only ids that are unknown%s" % (q, " or removed" if which == "edge" else ""), o.L)
                    continue
                R.holds("G02.bound", f, o, mkc(idx - n, "<"), "%s returns only for ids below the element count" % q, L=o.L)
                if which == "edge":
                    R.implies("G02.removed", f, o, [neg(c) for c in gone(g, which, idx)],
                              "%s returns only for edges that were not removed" % q, o.L)
                lv = o.val[0] if isinstance(o.val, tuple) else None
                if isinstance(lv, LP):
                    want = root + (("[]", idx), "*")
                    ok = patheq(lv.path, want)
                    R.check("G02.object", f, True if ok else (False if clean(lv.path) else None),
                            "%s returns %s, expected %s" % (q, PL.show_path(lv.path), PL.show_path(want)), o.L)
                else:
                    R.undecided("G02.object", f, "returned reference not interpreted")
            for k, w in (("thr", "rejects"), ("ret", "returns")):
                if seen and k not in seen:
                    R.violation("G02.cases", f, "%s never %s" % (q, w))
    for f in R.need(p, G + "::removeEdge", 1):
        idx = pval(f)
        seen = set()
        for o in R.run(p, f) or ():
            if o.kind == "thr":
                R.violation("G02.remove-throws", f, "removeEdge throws %s" % (o.val,), o.L)
                continue
            if not isinstance(o.val, Bool) or o.val.c not in (True, False):
                R.undecided("G02.remove-val", f, "result not interpreted")
                continue
            seen.add(o.val.c)
            if o.val.c:
                R.holds("G02.remove-bound", f, o, mkc(idx - g.ne, "<"), "removeEdge succeeds only for ids below the element count", L=o.L)
                R.implies("G02.remove-gone", f, o, [neg(c) for c in gone(g, "edge", idx)],
                          "removeEdge succeeds only for edges that were not removed", o.L)
            else:
                R.implies("G02.remove-reject", f, o, [mkc(g.ne - idx, "<=")] + gone(g, "edge", idx),
                          "removeEdge refuses only ids that are unknown or removed", o.L)
                bad = effects(o, ("this",))
                R.check("G02.remove-noeffect", f, not bad, "a refused removal changes %s" %
                        (PL.show_path(bad[0]["a"][0]) if bad else ""), bad[0]["L"] if bad else None)
        if seen and seen != {True, False}:
            R.violation("G02.cases", f, "removeEdge always returns %s" % seen.pop())
    # the returned reference is what the const overload returns: accessors do not copy
    for q in ("getEdge", "getNode"):
        for f in R.need(p, G + "::" + q, 1):
            R.check("G02.byref", f, f["rt"].rstrip().endswith("&"), "%s returns %s" % (q, f["rt"]))


def g03(R):
    g = Roles(R)
    p = g.p
    lists = (("edges leaving the start node", g.out, g.efrom, "getEdgesOut", "addEdgeOut"),
             ("edges entering the end node", g.inn, g.eto, "getEdgesIn", "addEdgeIn"))
    for f in R.need(p, G + "::addEdge", 1):
        prm = param(f)
        for o in R.run(p, f) or ():
            if o.kind != "ret":
                continue
            fin = [v for _, v, _ in slots(o, g.PE) if new_object(v)]
            if not fin:
                R.undecided("G03.add", f, "new edge not found")
                continue
            obj = fin[-1].path
            for what, lst, end, _, _ in lists:
                roots = ends(g, (prm,), end) + ends(g, obj, end)
                check_member(R, "G03.add-" + lst.strip("_"), f, o, [r + (lst,) for r in roots], Ptr(obj), what)
    for f in R.need(p, G + "::removeEdge", 1):
        idx = pval(f)
        for o in R.run(p, f) or ():
            if o.kind != "ret" or not isinstance(o.val, Bool) or o.val.c is not True:
                continue
            edge = g.PE + (("[]", idx), "*")
            for what, lst, end, _, _ in lists:
                roots = [r + (lst,) for r in ends(g, edge, end)]
                check_absent(R, "G03.remove-" + lst.strip("_"), f, o, roots, Ptr(edge), what)
            bad = [e for e in sub(o.st.ev) if e["k"] == "deref" and e.get("null")]
            R.check("G03.remove-null", f, not bad, "the removed edge is used after it was dropped", bad[0]["L"] if bad else None)
    for what, lst, end, get, add in lists:
        for f in R.need(p, "slamuk::Node::" + get, 0):
            for o in R.run(p, f) or ():
                lv = o.val[0] if isinstance(o.val, tuple) else None
                R.check("G03." + get, f, None if lv is None else patheq(lv.path, ("this", lst)) if clean(lv.path) else None,
                        "%s returns %s" % (get, PL.show_path(lv.path) if lv else "?"))
        for f in R.need(p, "slamuk::Node::" + add, 1):
            n0 = Poly.atom(("len", ("this", lst)), True, True)
            arg = Ptr((param(f), "*"))
            has = ("t", ("has", Vec(n0, ("this", lst), ()), arg), True)
            for o in R.run(p, f) or ():
                if o.kind != "ret" or not isinstance(o.val, Bool):
                    R.undecided("G03." + add, f, "not interpreted")
                    continue
                ef = effects(o, ("this", lst))
                oth = [e for e in effects(o, ("this",)) if not under(e["a"][0], ("this", lst))]
                R.check("G03.%s-other" % add, f, not oth, "%s changes %s" % (add, PL.show_path(oth[0]["a"][0]) if oth else ""))
                if ef:
                    sl = slots(o, ("this", lst))
                    R.check("G03.%s-append" % add, f, None if not sl else len(sl) == 1 and veq(sl[0][1], arg) and
                            PL.equal(length(o, ("this", lst), n0), n0 + 1), "%s stores %s" % (add, sl))
                    R.holds("G03.%s-once" % add, f, o, neg(has), "an edge already listed is not listed twice")
                    R.check("G03.%s-ret" % add, f, o.val.c is True, "%s reports %s after adding" % (add, o.val))
                else:
                    R.holds("G03.%s-must" % add, f, o, has, "%s adds every edge not listed yet" % add)
                    R.check("G03.%s-ret" % add, f, o.val.c is False, "%s reports %s without adding" % (add, o.val))
    # edges built from two nodes keep them in order
    for f in p.funcs.values():
        if f.get("ctor") and bare(f["q"]) == "slamuk::Edge::Edge" and len(f["ps"]) >= 2 and \
           all("Node<" in q["t"] and "*" in q["t"] for q in f["ps"][:2]):
            for o in R.run(p, f) or ():
                for i, end in ((0, g.efrom), (1, g.eto)):
                    R.same("G03.edge-ends", f, o, at(o, "this", end), Ptr((param(f, i), "*")), "end %d of a new edge" % i)
    for q, fld in (("setFrom", g.efrom), ("setTo", g.eto)):
        for f in R.need(p, "slamuk::Edge::" + q, 1, opt=True):
            for o in R.run(p, f) or ():
                R.same("G03." + q, f, o, at(o, "this", fld), Ptr((param(f), "*")), q)


def ends(g, edge, end):
    """the paths of an end node of an edge: through its pointer or through the node list"""
    n = edge + (end, "*")
    i = Poly.atom(("in", n + (g.nid,)), True, True)
    return [n, g.PN + (("[]", i), "*")]


def norm(o, path):
    """path with pointers of freshly built objects followed"""
    return path


def hit(path, roots):
    return any(patheq(path, r) for r in roots)


def check_member(R, rule, f, o, roots, ptr, what):
    ok = None
    for e in sub(o.st.ev):
        if e["k"] == "w" and len(e["a"][0]) > 1 and hit(e["a"][0][:-1], roots) and isinstance(e["a"][0][-1], tuple) and e["a"][0][-1][0] == "[]":
            if veq(e["a"][1], ptr):
                ok = True
    if ok:
        R.proved(rule, f, what)
        return
    for c in o.guards():
        if isinstance(c, tuple) and c[0] == "t" and c[2] and c[1][0] == "has" and veq(c[1][2], ptr) and hit(c[1][1].base, roots):
            R.proved(rule, f, what + " (already listed)")
            return
    if unclear(o):
        R.undecided(rule, f, what + ": not interpreted")
    else:
        R.violation(rule, f, "the new edge is not listed among the %s%s" % (what, where(o.guards())))


def unclear(o):
    """anything in the partition that could have done the work unseen"""
    for e in sub(o.st.ev):
        if e["k"] == "call" and not e.get("inl") and not e["a"][0].startswith(("std::", "Eigen::")):
            return True
        if e["k"] == "loop":
            return True
    return bool(o.st.notes)


def check_absent(R, rule, f, o, roots, ptr, what):
    evs = [e for e in sub(o.st.ev) if e["k"] in MUT and e["a"] and any(under(e["a"][0], r) for r in roots)]
    seen = set()
    for e in evs:
        if e["k"] == "remove":
            if veq(e["a"][2], ptr):
                seen.add("remove")
            else:
                R.violation(rule, f, "%s: %s is taken out instead of the removed edge" % (what, short(e["a"][2])), e["L"])
                return
        if e["k"] == "eraser" and "remove" in seen:
            a = e["a"][1].as_atom()
            if a and a[0] == "removed":
                R.proved(rule, f, what, e["L"])
                return
        if e["k"] == "erase":
            a = e["a"][1].as_atom()
            if a and a[0] == "find" and veq(a[2], ptr):
                R.proved(rule, f, what, e["L"])
                return
            if a and a[0] == "find" and clean(a[2]):
                R.violation(rule, f, "%s: erases %s, not the removed edge" % (what, short(a[2])), e["L"])
                return
    if evs:
        R.undecided(rule, f, "%s: handled by %s" % (what, [e["k"] for e in evs]))
        return
    for c in o.guards():
        if isinstance(c, tuple) and c[0] == "t" and not c[2] and c[1][0] == "has" and veq(c[1][2], ptr) and hit(c[1][1].base, roots):
            R.proved(rule, f, what + " (was not listed)")
            return
        # a null end has no list
        if isinstance(c, tuple) and c[0] == "t" and c[2] and c[1][0] == "null" and any(patheq(c[1][1], r[:-1]) for r in roots):
            R.proved(rule, f, what + " (no end node)")
            return
    if unclear(o):
        R.undecided(rule, f, what + ": not interpreted")
    else:
        R.violation(rule, f, "a removed edge stays listed among the %s (dangling pointer)%s" % (what, where(o.guards())))


def g04(R):
    g = Roles(R)
    p = g.p
    its = {}
    for cls in ("slamuk::ListIterator", "slamuk::ConstListIterator"):
        r = rec_of(p, cls)
        if not r:
            raise Anchor(cls)
        fs = [x["n"] for x in r[0]["fields"]]
        if len(fs) < 2:
            raise Anchor("iterator fields of " + cls)
        # which field is dereferenced by operator* is the current position
        cur = None
        for o in Engine(p).run(R.one(p, cls + "::operator*", 0)):
            for e in o.st.ev:
                if e["k"] == "itderef" and e["a"][0].cont[:1] == ("this",):
                    cur = e["a"][0].cont[1]
                    cont = e["a"][0].cont
        if cur is None:
            raise Anchor("position of " + cls)
        end = [x for x in fs if x != cur][0]
        its[cls] = (cur, end, cont)
    for cls, (cur, end, cont) in its.items():
        pos0 = Poly.atom(("in", ("this", cur, "pos")), True)
        endit = Iter(("this", end, "*c"), Poly.atom(("in", ("this", end, "pos")), True))
        for f in R.need(p, cls + "::operator++"):
            post = len(f["ps"]) == 1
            outs = R.run(p, f)
            for o in outs or ():
                if o.kind != "ret":
                    continue
                it = at(o, "this", cur)
                if not isinstance(it, Iter):
                    R.check("G04.advance", f, False if it is None and not unclear(o) else None, "the position is not moved")
                    continue
                check_stop(R, "G04.stop", f, o, it, endit)
                check_derefs(R, f, o, endit)
                advance(R, f, o, it, pos0)
                v = o.val[1] if isinstance(o.val, tuple) else o.val
                if isinstance(v, Rec):
                    want = Iter(cont, pos0) if post else it
                    R.same("G04.post-value" if post else "G04.pre-value", f, o, v.f.get(cur), want,
                           "value of the %s-increment" % ("post" if post else "pre"))
                elif isinstance(o.val, tuple) and isinstance(o.val[0], LP):
                    R.check("G04.pre-value", f, patheq(o.val[0].path, ("this",)) if not post else None, "returned iterator")
                R.check("G04.end-kept", f, True if at(o, "this", end) is None else None, "the end position is kept")
        for f in R.need(p, cls + "::operator*", 0):
            for o in R.run(p, f) or ():
                lv = o.val[0] if isinstance(o.val, tuple) else None
                want = cont + (("[]", pos0), "*")
                R.check("G04.deref", f, None if not isinstance(lv, LP) or not clean(lv.path) else patheq(lv.path, want),
                        "operator* yields %s" % (PL.show_path(lv.path) if isinstance(lv, LP) else "?"))
        for f in R.need(p, cls + "::operator->", 0):
            for o in R.run(p, f) or ():
                R.check("G04.arrow", f, None if not isinstance(o.val, Ptr) or not clean(o.val) else
                        patheq(o.val.path, cont + (("[]", pos0), "*")), "operator-> yields %s" % short(o.val))
        eqf = R.one(p, cls + "::operator==", 1)
        nef = R.one(p, cls + "::operator!=", 1)
        for f, pol in ((eqf, True), (nef, False)):
            for o in R.run(p, f) or ():
                if not isinstance(o.val, Bool):
                    R.undecided("G04.cmp", f, "not interpreted")
                    continue
                rhs = (param(f), cur)
                e = [c for c in o.guards() if isinstance(c, tuple) and c[0] == "t" and c[1][0] == "eq" and len(c[1]) == 3 and
                     {rootfield(c[1][1]), rootfield(c[1][2])} == {("this", cur), rhs}]
                if not e:
                    R.undecided("G04.cmp", f, "comparison not recognised")
                    continue
                R.check("G04.cmp", f, e[-1][2] == (o.val.c == pol), "iterators at %s positions compare %s" %
                        ("equal" if e[-1][2] else "different", "equal" if (o.val.c == pol) else "different"))
    for q, root, n in (("beginEdge", g.PE, g.ne), ("cbeginEdge", g.PE, g.ne), ("beginNode", g.PN, g.nn), ("cbeginNode", g.PN, g.nn),
                       ("endEdge", g.PE, g.ne), ("cendEdge", g.PE, g.ne), ("endNode", g.PN, g.nn), ("cendNode", g.PN, g.nn)):
        for f in R.need(p, G + "::" + q, 0):
            cls = "slamuk::ConstListIterator" if q.startswith("c") else "slamuk::ListIterator"
            cur, end, _ = its[cls]
            for o in R.run(p, f) or ():
                v = o.val
                if not isinstance(v, Rec) or not isinstance(v.f.get(cur), Iter):
                    R.undecided("G04." + q, f, "not interpreted")
                    continue
                e = Iter(root, n)
                R.same("G04.end", f, o, v.f[end], e, "end position of %s" % q)
                if "end" in q:
                    R.same("G04.end", f, o, v.f[cur], e, "position of %s" % q)
                    continue
                c = v.f[cur]
                if not patheq(c.cont, root):
                    R.check("G04.begin-list", f, False if clean(c.cont) else None, "%s walks %s" % (q, PL.show_path(c.cont)))
                    continue
                if "Edge" in q:
                    check_stop(R, "G04.begin-live", f, o, c, e)
                    check_derefs(R, f, o, e)
                d = c.pos
                a = d.as_atom()
                looped = any(x["k"] == "loop" for x in o.st.ev)
                if not d.t or (a and a[0] in ("trips", "it")) or (looped and PL.equal(d, n)):
                    R.proved("G04.begin", f, "starts at the first element")
                    if d.t:
                        skip_only_null(R, f, o, c.cont)
                else:
                    R.same("G04.begin", f, o, d, PL.ZERO, "%s starts at the first element" % q)


def rootfield(x):
    return x.cont[:2] if isinstance(x, Iter) else None


def iseq(c, a, b, o=None):
    """condition c compares iterators a and b"""
    if isinstance(c, tuple) and c[0] == "t" and c[1][0] == "eq" and len(c[1]) == 3:
        x, y = c[1][1], c[1][2]
        return (veq(x, a) and veq(y, b)) or (veq(x, b) and veq(y, a))
    return False


def ended(facts, it, end):
    """True / False / None: is the position the end"""
    if isinstance(it, Iter) and it.cont == end.cont:
        return facts.decide(mkc(it.pos - end.pos, "=="))
    for c in facts.lst:
        if iseq(c, it, end):
            return c[2]
    return None


def check_stop(R, rule, f, o, it, end):
    """the final position is the end or a live element"""
    e = ended(o.facts, it, end)
    elem = ("null", it.cont + (("[]", it.pos), "*"))
    live = o.facts.decide(("t", elem, False))
    if e is True or live is True:
        R.proved(rule, f, "stops at the end or at a live element")
    elif not clean(it) or o.st.notes:
        R.undecided(rule, f, "not interpreted: %s" % short(it))
    else:
        R.violation(rule, f, "may stop at an empty slot: nothing on this path shows the final position live%s" % where(o.guards()))


def check_derefs(R, f, o, end):
    def walk(evs, facts, notes):
        for e in evs:
            if e["k"] == "itderef":
                it = e["a"][0]
                fs = facts[:e["nf"]]
                ok = None
                for c in fs:
                    if iseq(c, it, end):
                        ok = not c[2]
                if ok is None and it.cont == end.cont:
                    from .engine import Facts
                    fa = Facts()
                    try:
                        for c in fs:
                            fa.assume(c)
                        d = fa.decide(mkc(it.pos - end.pos, "<"))
                        if d is None:
                            d = fa.decide(mkc(it.pos - end.pos, "!="))
                        ok = d
                    except Infeasible:
                        ok = True
                if ok:
                    R.proved("G04.in-range", f, "element read before the end", e["L"])
                elif not clean(it) or notes:
                    R.undecided("G04.in-range", f, "not interpreted", e["L"])
                else:
                    R.violation("G04.in-range", f, "reads the element at %s before checking it against the end position" % short(it), e["L"])
            if e["k"] == "loop":
                for s in e.get("subs", ()):
                    walk(s["ev"], (s["st"].facts.lst if s.get("st") is not None else s.get("guards", [])), notes)
    walk(o.st.ev, o.guards(), o.st.notes)


def skip_only_null(R, f, o, cont):
    for e in o.st.ev:
        if e["k"] != "loop":
            continue
        for s in e["subs"]:
            if s["kind"] not in ("fall", "cnt"):
                continue
            fs = s["st"].facts
            nulls = [c for c in fs.lst if isinstance(c, tuple) and c[0] == "t" and c[1][0] == "null" and c[2] and under(c[1][1], cont)]
            live = [c for c in fs.lst if isinstance(c, tuple) and c[0] == "t" and c[1][0] == "null" and not c[2] and under(c[1][1], cont)]
            if nulls:
                R.proved("G04.skip", f, "only empty slots are skipped", e["L"])
            elif o.st.notes:
                R.undecided("G04.skip", f, "not interpreted", e["L"])
            else:
                R.violation("G04.skip", f, "a slot is skipped that is not known to be empty%s" % (
                    " (it is live)" if live else ""), e["L"])


def advance(R, f, o, it, pos0):
    d = it.pos - pos0
    k = d.cval()
    rest = d - k
    a = rest.as_atom()
    if not rest.t:
        if k > 1 and all(o.facts.decide(("t", ("null", it.cont + (("[]", pos0 + i), "*")), True)) is True for i in range(1, int(k))):
            R.proved("G04.advance", f, "moves by one and past empty slots")
            return
        R.same("G04.advance", f, o, d, PL.ONE, "moves by one element")
        return
    if not a or a[0] not in ("trips", "it"):
        R.undecided("G04.advance", f, "moves by %s" % d)
        return
    lk = [e.get("lk") for e in o.st.ev if e["k"] == "loop"]
    want = 0 if lk and lk[-1] == "do" else 1
    if k == want:
        R.proved("G04.advance", f, "moves by one and past empty slots")
        skip_only_null(R, f, o, it.cont)
    elif lk and lk[-1] in ("while", "for", "do") and not o.st.notes and o.val is not None:
        if k < want:
            R.violation("G04.advance", f, "does not move off the current element")
        else:
            R.violation("G04.advance", f, "moves %s elements before looking for a live one" % k)
    else:
        R.undecided("G04.advance", f, "moves by %s" % d)


EDGE = ("id", "state", "type", "used", "from", "to", "transform", "inform")
NODE = ("id", "visited", "pose", "object.v", "in", "out")
# law in probe/laws.cpp, function judged, its parameters, attributes, what is set
LAWS5 = [
    ("edge_setId", "slamuk::Edge::setId", 1, EDGE, {"id": "x"}),
    ("edge_setState", "slamuk::Edge::setState", 1, EDGE, {"state": "x"}),
    ("edge_setType", "slamuk::Edge::setType", 1, EDGE, {"type": "x"}),
    ("edge_setUsed", "slamuk::Edge::setUsed", 1, EDGE, {"used": "x"}),
    ("edge_look", "slamuk::Edge::getError", 0, EDGE, {}),
    ("edge_copy", "slamuk::Edge::getId", 0, EDGE, {}),
    ("edge_new", "slamuk::Edge::Edge", 4, EDGE, {"id": 0, "state": 3, "type": 0, "used": False, "from": "from", "to": "to", "transform": "t", "inform": "m"}),
    ("edge_default", "slamuk::Edge::Edge", 0, (), {"id": 0, "state": 3, "type": 0, "used": False, "from": None, "to": None}),
    ("edge_add", "slamuk::Graph::addEdge", 1, EDGE, {"id": "id"}),
    ("node_setId", "slamuk::Node::setId", 1, NODE, {"id": "x"}),
    ("node_setVisited", "slamuk::Node::setVisited", 1, NODE, {"visited": "x"}),
    ("node_setPose", "slamuk::Node::setPose", 1, NODE, {"pose": "x"}),
    ("node_addToPose", "slamuk::Node::addToPose", 1, NODE, {"pose": "?"}),
    ("node_addToPoseMove", "slamuk::Node::addToPose", 1, NODE, {"pose": "?"}),
    ("node_addDataObj", "slamuk::Node::addDataObj", 1, NODE, {"object.v": "x.v"}),
    ("node_print", "slamuk::Node::printNode", 1, NODE, {}),
    ("node_copy", "slamuk::Node::getId", 0, NODE, {}),
    ("node_new", "slamuk::Node::Node", 2, NODE, {"id": 0, "visited": False, "pose": "p", "object.v": "o.v", "in": 0, "out": 0}),
    ("node_default", "slamuk::Node::Node", 0, (), {"id": 0, "visited": False, "in": 0, "out": 0}),
    ("node_add", "slamuk::Graph::addNode", 1, NODE, {"id": "id"}),
]
WORD = {"object.v": "data object", "in": "number of incoming edges", "out": "number of outgoing edges", "used": "used flag",
        "from": "start node", "to": "end node", "transform": "transformation", "inform": "information matrix"}


def g05(R):
    """setters, getters, constructors and insertion composed and interpreted as one function"""
    p = program(["laws"])
    for law, q, n, attrs, sets in LAWS5:
        lf = R.one(p, "vp_law::" + law)
        fs = R.need(p, q, n)
        f = fs[0] if law != "node_addToPoseMove" or len(fs) < 2 else next((x for x in fs if "&&" in x["ps"][0]["t"]), fs[0])
        what = {"edge_look": "reading the edge", "edge_copy": "copying the edge", "node_copy": "copying the node"}.get(law, f["n"])
        new = law.endswith(("_new", "_default"))
        for o in R.run(p, lf) or ():
            if o.kind != "fall" and o.kind != "ret":
                continue          # rejected: decided by G01 and G02
            for a in attrs or sets:
                pre = a.split(".")
                got = at(o, ("p", "b"), *pre) if attrs else at(o, ("p", a))
                w = sets.get(a, "=")
                if w == "?":
                    continue
                if w == "=":
                    want = at(o, ("p", "a"), *pre)
                    text = "%s keeps the %s" % (what, WORD.get(a, a))
                elif isinstance(w, str):
                    want = initial(o, w.split("."), got)
                    text = "the id read back is the one returned" if w == "id" else ("a new element has the given %s" if new else "the %s read back is the one set") % WORD.get(a, a)
                else:
                    want = P(w) if isinstance(w, int) and not isinstance(w, bool) else Bool(w) if w is False else Ptr(None)
                    text = "%s of a new element" % WORD.get(a, a)
                R.same("G05." + a.split(".")[0], f, o, got, want, text)


def initial(o, path, like):
    """value of a parameter of the law"""
    v = at(o, ("p", path[0]), *path[1:])
    if v is not None:
        return v
    t = (("p", path[0]),) + tuple(path[1:])
    if isinstance(like, Mat):
        return Mat(like.r, like.c, [Poly.atom(("in", t + (("el", i, j),))) for j in range(like.c) for i in range(like.r)])
    if isinstance(like, Ptr):
        return Ptr(t + ("*",))
    if isinstance(like, Bool):
        return Bool(("t", ("in", t), True))
    return Poly.atom(("in", t))


RULES = {"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05}
