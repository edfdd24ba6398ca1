"""Obligations, verdicts and the comparison of code partitions with expectations.

A rule is a Python function taking a Report.  It analyses functions of the current
tree with the abstract interpreter and states obligations about every partition.
Each obligation ends as
  proved     the interpreted code is shown to meet it,
  violation  the code was fully interpreted and does not meet it,
  undecided  something on the way was not interpreted; nothing is concluded.
Only violations fail a check.
"""
import signal
import time

from . import poly as PL
from .poly import Poly, P
from .engine import Engine, TooMany, Infeasible, neg, mkc, showc
from .facts import Program, bare, InfraError
from .values import *
from .values import Uninit
from .types import tinfo, strip
from . import refute

DIRTY = {"unk", "unkval", "noreturn", "let", "post", "phi", "loopbuilt", "truthy", "pred", "havoc", "rel"}


class Anchor(Exception):
    """something the property is anchored on is not in the tree any more"""


class Lost(Anchor):
    """a private part of a class has no counterpart any more: the property is undecided"""


class Timeout(Exception):
    pass


_PROGS = {}


def program(units):
    k = tuple(units)
    if k not in _PROGS:
        _PROGS[k] = Program(units)
    return _PROGS[k]


def isdirty(a):
    return isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in DIRTY


def clean(v):
    if v is None:
        return True
    if isinstance(v, Opq):
        return False if v.key and v.key[0] in ("unk", "arr") else not PL.mentions(v.key, isdirty)
    if isinstance(v, Uninit):
        return True
    return not PL.mentions(v, isdirty)


def gclean(g):
    """is a branch condition understood; tests on what g2o returns are free inputs"""
    if clean(("x", g)):
        return True
    if g[0] != "t":
        return False
    lib = set()

    def pred(a):
        if isdirty(a):
            if a[0] == "unk" and len(a) > 2 and a[1] == "call" and str(a[2]).startswith("g2o::"):
                lib.add(a)
                return False
            return True
        return False
    return not PL.mentions(("x", g), pred)


TURN = 6.283185307179586


def reduced(fa, got, want):
    """want is an angle reduced to [-pi, pi]; got differs from that angle by whole
    turns and lies in that interval"""
    a = want.as_atom()
    if not a or a[0] != "wrap":
        return False
    d = got - a[1]
    rest, off = PL.ZERO, 0.0
    floors = []
    for m, c in d.t.items():
        if not m:
            off += float(c)
            continue
        at = PL.atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        k = float(c) / TURN
        if at and at[0] in ("fmod", "remainder") and at[2].is_const() and abs(float(at[2].cval()) - TURN) < 1e-9 and c.denominator == 1:
            rest = rest + at[1] * c
        elif at and at[0] == "wrap" and c.denominator == 1:
            rest = rest + at[1] * c
        elif at and m[0][0] in PL._INT and abs(k - round(k)) < 1e-9:
            if at[0] == "floor":
                floors.append((at[1], c))
        else:
            rest = rest + Poly({m: c})
    rest = PL._unwrap(rest)
    for m, c in rest.t.items():
        if m and abs(float(c)) > 1e-9:
            return False
    off += float(rest.t.get((), 0))
    k = off / TURN
    if abs(k - round(k)) > 1e-9:
        return False
    lo, _, hi, _ = fa.bounds(got)
    eps = 1e-9
    if lo is not None and hi is not None and lo >= -TURN / 2 - eps and hi <= TURN / 2 + eps:
        return True
    if len(floors) == 1:
        q, c = floors[0]
        # q - floor(q) is in [0, 1)
        base = got - Poly.atom(("floor", q), True) * c + q * c
        if all(not m or abs(float(x)) < 1e-9 for m, x in base.t.items()):
            b = float(base.t.get((), 0))
            l, h = (b, b - float(c)) if c < 0 else (b - float(c), b)
            return l >= -TURN / 2 - eps and h <= TURN / 2 + eps
    return False


def uninit_in(v):
    return v is not None and PL.mentions(v, lambda a: isinstance(a, tuple) and a and a[0] == "uninit")


def veq(a, b):
    """are two abstract values equal by normal form"""
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        b = P(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return PL.equal(a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.r * a.c != b.r * b.c:
            return False
        return all(PL.equal(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return set(a.f) == set(b.f) and all(veq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Rec) and isinstance(b, dict):
        return all(k in a.f and veq(a.f[k], x) for k, x in b.items())
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return patheq(a.path, b.path)
    if isinstance(a, Bool):
        return a.c == (b.c if isinstance(b, Bool) else b)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return patheq(a.cont, b.cont) and PL.equal(a.pos, b.pos)
    return a == b


def patheq(p, q):
    if p is None or q is None:
        return p is q
    return PL._same_atom(p, q)


def differ(a, b, conds):
    """a valuation on which values a and b differ under conds; True when they differ structurally"""
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        b = P(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return refute.separable(a, b, conds)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.r * a.c != b.r * b.c:
            return True
        for x, y in zip(a.e, b.e):
            if not PL.equal(x, y):
                r = refute.separable(x, y, conds)
                if r:
                    return r
        return None
    if isinstance(a, Rec) and isinstance(b, (Rec, dict)):
        bf = b.f if isinstance(b, Rec) else b
        for k, x in bf.items():
            if k in a.f and not veq(a.f[k], x):
                r = differ(a.f[k], x, conds)
                if r:
                    return r
        return None
    if isinstance(a, Iter) and isinstance(b, Iter):
        if not patheq(a.cont, b.cont):
            return refute.feasible(conds)
        return refute.separable(a.pos, b.pos, conds)
    if isinstance(a, Bool) and not isinstance(b, Bool):
        b = Bool(b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        if a.c in (True, False) and b.c in (True, False):
            return refute.feasible(conds)
        for x, y in ((a.c, b.c), (b.c, a.c)):
            # x holds and y does not
            if x is False or y is True or not (x is True or isinstance(x, tuple)) or not (y is False or isinstance(y, tuple)):
                continue
            r = refute.feasible(list(conds) + ([x] if x is not True else []) + ([neg(y)] if y is not False else []))
            if r:
                return r
        return None
    return refute.feasible(conds)


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.obs = []            # (key, verdict, text, file, line)
        self.funcs = set()
        self.paths = 0
        self.notes = set()
        self.rules = []
        self.limit = 60 if tier == "quick" else 200
        self.undec_reasons = {}

    # ------------------------------------------------------------ anchors
    def need(self, prog, q, n=None, const=None, ptypes=None, pick=None, opt=False):
        fs = [f for f in prog.find(q, n, const, ptypes) if f.get("b") or f.get("ctor")]
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs and not opt:
            raise Anchor("%s%s is not in the analysed tree" % (q, "" if n is None else "/%d" % n))
        return fs

    def one(self, prog, q, n=None, **kw):
        return self.need(prog, q, n, **kw)[0]

    # ------------------------------------------------------------ running
    def run(self, prog, f, this=("this",), args=None, pre=None, limit=None, maxpaths=None, **kw):
        """partitions of f, or None when the analysis gives up"""
        E = Engine(prog, **kw)
        if maxpaths:
            E.MAXPATHS = maxpaths
        self.engine = E

        def h(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, h)
        signal.alarm(limit or self.limit)
        try:
            outs = E.run(f, this=this, args=args, pre=pre)
        except (TooMany, Timeout, RecursionError) as ex:
            self.undecided("analysis", f, type(ex).__name__)
            return None
        except Infeasible:
            return []
        except Exception as ex:      # an engine limitation is never an alarm
            self.undecided("analysis", f, "engine: %r" % (ex,))
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            self.funcs |= E.funcs_seen
        self.funcs.add(f["f"])
        self.paths += len(outs)
        for o in outs:
            self.notes |= o.st.notes
        return outs

    # ------------------------------------------------------------ verdicts
    def _add(self, rule, f, verdict, text, L=None):
        if isinstance(f, dict):
            fn, fl, ln = fkey(f), f.get("file", "?"), L or f.get("L", 0)
        else:
            fn, fl, ln = str(f), "?", L or 0
        self.obs.append({"rule": rule, "func": fn, "verdict": verdict, "text": text, "file": fl, "line": ln})

    def proved(self, rule, f, text="", L=None):
        self._add(rule, f, "proved", text, L)

    def violation(self, rule, f, text, L=None):
        self._add(rule, f, "violation", text, L)

    def undecided(self, rule, f, text, L=None):
        self._add(rule, f, "undecided", text, L)

    def check(self, rule, f, ok, text, L=None):
        """ok: True / False / None"""
        (self.proved if ok else self.undecided if ok is None else self.violation)(rule, f, text, L)

    def same(self, rule, f, o, got, want, what, conds=(), L=None):
        """in partition o (restricted to conds) got must equal want"""
        fa = o.facts
        if conds:
            fa = fa.copy()
            try:
                for c in conds:
                    if c is False:
                        return None
                    if c is not True:
                        fa.assume(c)
            except Infeasible:
                return None
        try:
            if veq(got, want):
                self.proved(rule, f, what, L)
                return True
        except Exception as ex:
            self.undecided(rule, f, "%s: not comparable (%r)" % (what, ex), L)
            return None
        if isinstance(got, Poly) and isinstance(want, (Poly, int)) and fa.lst:
            try:
                if fa.decide(mkc(got - P(want) if isinstance(want, int) else got - want, "==")) is True:
                    self.proved(rule, f, what, L)
                    return True
            except Exception:
                pass
        if isinstance(got, Poly) and isinstance(want, Poly) and reduced(fa, got, want):
            self.proved(rule, f, what, L)
            return True
        if isinstance(got, Bool) and isinstance(want, (Bool, bool)):
            try:
                gw = [c if c in (True, False) else fa.decide(c) for c in (got.c, want.c if isinstance(want, Bool) else want)]
            except Exception:
                gw = [None]
            if gw[0] is not None and gw[0] == gw[-1]:
                self.proved(rule, f, what, L)
                return True
        if got is None or not clean(got) or not clean(want):
            self.undecided(rule, f, "%s: value not fully interpreted: %s" % (what, short(got)), L)
            return None
        if uninit_in(got):
            self.violation(rule, f, "%s: depends on an uninitialised value: %s" % (what, short(got)), L)
            return False
        gs = list(fa.lst)
        if not all(gclean(c) for c in gs):
            self.undecided(rule, f, "%s: partition condition not fully interpreted" % what, L)
            return None
        w = differ(got, want, gs + refute.loop_conds(o.st.ev))
        if not w:
            self.undecided(rule, f, "%s: %s and %s neither shown equal nor separated" % (what, short(got), short(want)), L)
            return None
        self.violation(rule, f, "%s: is %s, expected %s%s" % (what, short(got), short(want), where(gs)), L)
        return False

    def holds(self, rule, f, o, c, what, conds=(), L=None):
        """condition c must hold in partition o"""
        fa = o.facts.copy()
        try:
            for k in conds:
                if k is False:
                    return None
                if k is not True:
                    fa.assume(k)
        except Infeasible:
            return None
        d = fa.decide(c)
        if d is True:
            self.proved(rule, f, what, L)
            return True
        if d is None:
            fb = fa.copy()
            try:
                fb.assume(neg(c))
            except Infeasible:
                self.proved(rule, f, what, L)
                return True
            gs = list(fb.lst)
        else:
            gs = list(fa.lst)
        if not clean(("x", c)) or not all(gclean(g) for g in gs):
            self.undecided(rule, f, "%s: not fully interpreted" % what, L)
            return None
        if not refute.feasible(gs + refute.loop_conds(o.st.ev)):
            self.undecided(rule, f, "%s: no counterexample valuation%s" % (what, where(gs)), L)
            return None
        self.violation(rule, f, "%s does not hold: %s fails%s" % (what, showc(c), where(gs)), L)
        return False

    def implies(self, rule, f, o, alts, what, L=None):
        """partition o must imply at least one of the alternative conditions"""
        fa = o.facts.copy()
        for c in alts:
            if fa.decide(c) is True:
                self.proved(rule, f, what, L)
                return True
        try:
            for c in alts:
                fa.assume(neg(c))
        except Infeasible:
            self.proved(rule, f, what, L)
            return True
        gs = list(fa.lst)
        if not all(gclean(g) for g in gs) or not refute.feasible(gs + refute.loop_conds(o.st.ev)):
            self.undecided(rule, f, what + ": not fully interpreted", L)
            return None
        self.violation(rule, f, "%s: none of [%s]%s" % (what, " or ".join(showc(c) for c in alts), where(o.guards())), L)
        return False

    def cases(self, rule, f, o, got, table, what, L=None):
        """table: [(conditions, value)]; got must be the value of every case consistent with o"""
        for conds, want in table:
            self.same(rule, f, o, got, want, what, conds, L)

    # ------------------------------------------------------------ summary
    def summary(self):
        c = {"proved": 0, "violation": 0, "undecided": 0}
        for o in self.obs:
            c[o["verdict"]] += 1
        return c


def where(gs):
    gs = [showc(g) for g in gs]
    if not gs:
        return " (always)"
    s = " and ".join(gs)
    return " when " + (s if len(s) < 300 else s[:300] + "...")


def fkey(f):
    if "ps" not in f:
        return f["f"]
    return "%s/%d%s" % (bare(f["q"]), len(f["ps"]), "c" if f.get("const") else "")


def sub(e):
    """all events of a list, entering loop bodies"""
    for x in e:
        yield x
        if x["k"] == "loop":
            for s in x.get("subs", ()):
                for y in sub(s["ev"]):
                    yield y


def calls(o, name):
    return [e for e in o.st.ev if e["k"] == "call" and e["a"][0] == name]


def rec_of(prog, q):
    """record types whose name without template arguments is q"""
    return [r for t, r in prog.recs.items() if bare(strip(t)) == q]


def field(r, *prefs, t=None):
    """field of a record by preferred names, else the only one whose type matches"""
    names = {f["n"]: f["t"] for f in r["fields"]}
    for p in prefs:
        if p in names:
            return p
    if t:
        c = [n for n, ft in names.items() if t(strip(ft))]
        if len(c) == 1:
            return c[0]
    raise Lost("no field %s in %s" % ("/".join(prefs), r["t"]))


def at(o, *path):
    """final value at a path in partition o, or None when unchanged"""
    return o.st.store.get(tuple(path))
