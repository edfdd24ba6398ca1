"""Runs the exporter over the current sources of /repo and loads what it wrote."""
import hashlib
import functools
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSLAM_REPO", "/repo")
PKG = REPO + "/ndt_gslam"
BUILD = os.path.join(VERIF, "build")
EXPORTER = os.path.join(BUILD, "gslamfacts")


class InfraError(Exception):
    pass


def ensure_exporter():
    if os.path.exists(EXPORTER):
        src = os.path.join(VERIF, "analyzer/gslamfacts.cpp")
        if os.path.getmtime(EXPORTER) >= os.path.getmtime(src) or os.environ.get("GSLAM_NOREBUILD"):
            return
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "analyzer")], capture_output=True, text=True)
    if r.returncode or not os.path.exists(EXPORTER):
        raise InfraError("cannot build the exporter: " + r.stderr[-2000:])


FLAGS = ["-xc++", "-std=c++17", "-fopenmp", "-O3", "-I" + PKG + "/include",
         "-isystem", VERIF + "/stubs/omp", "-isystem", "/usr/include/suitesparse",
         "-isystem", "/usr/include/eigen3", "-Wno-everything"]

UNITS = {
    "core": (VERIF + "/probe/core.cpp", []),
    # compositions of public operations, interpreted like any other function
    "laws": (VERIF + "/probe/laws.cpp", []),
    "cell": (PKG + "/src/ndt/ndt_cell.cpp", []),
    "mix": (PKG + "/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp", []),
    "mixxy": (PKG + "/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp", []),
    "sw_edge": (PKG + "/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp", []),
    "sw_prior": (PKG + "/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp", []),
    "sw_vertex": (PKG + "/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp", []),
    "sw_types": (PKG + "/src/slam_optimizer/switchable_constraints/types_g2o_robust.cpp", []),
}


def tree_hash():
    """content of everything that can influence the exported facts"""
    h = hashlib.sha256()
    for base in (PKG + "/include", PKG + "/src", VERIF + "/probe", VERIF + "/stubs", VERIF + "/analyzer"):
        for d, dn, fs in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(PKG.encode())
    return h.hexdigest()[:20]


def export(units):
    ensure_exporter()
    th = tree_hash()
    cache = os.environ.get("GSLAM_CACHE") or os.path.join(BUILD, "facts")
    os.makedirs(cache, exist_ok=True)
    procs, out = [], {}
    for u in units:
        src, extra = UNITS[u]
        dst = os.path.join(cache, "%s-%s.json" % (u, th))
        out[u] = dst
        if os.path.exists(dst):
            continue
        tmp = dst + ".%d.tmp" % os.getpid()
        p = subprocess.Popen([EXPORTER, tmp, PKG + (":" + VERIF + "/probe/laws" if u == "laws" else ""), src, "--"] + FLAGS + extra,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        procs.append((u, p, tmp, dst))
    for u, p, tmp, dst in procs:
        _, err = p.communicate()
        if not os.path.exists(tmp):
            raise InfraError("exporter wrote nothing for %s: %s" % (u, err[-1500:]))
        os.replace(tmp, dst)
    # drop facts of older trees
    for u in units:
        old = [f for f in os.listdir(cache) if f.startswith(u + "-") and f.endswith(".json")]
        if len(old) > 4:
            old.sort(key=lambda f: os.path.getmtime(os.path.join(cache, f)) if os.path.exists(os.path.join(cache, f)) else 0)
            for f in old[:-4]:
                try:
                    os.unlink(os.path.join(cache, f))
                except OSError:
                    pass
    return out


class Program:
    def __init__(self, units):
        self.units = list(units)
        self.funcs = {}      # key -> function
        self.recs = {}       # type string -> record
        self.uninst = []
        self.diags = []
        self.nodef = []      # functions declared in a unit and not defined in it
        self.vars = []       # variables of namespace scope
        self.enums = set()
        off = 0
        for u, path in export(units).items():
            with open(path) as fh:
                d = json.load(fh)
            types = d["types"]
            self._u = off
            off += 10000000
            for f in d["funcs"]:
                self._fix(f, types)
                f["unit"] = u
                old = self.funcs.get(f["f"])
                if old is None or ("b" in f and "b" not in old):
                    self.funcs[f["f"]] = f
            for r in d["recs"]:
                r["t"] = types[r["t"]]
                for x in r["fields"]:
                    x["t"] = types[x["t"]]
                    if x.get("scalar"):
                        from .types import tinfo
                        if tinfo(x["t"]).k == "cls":
                            self.enums.add(tinfo(x["t"]).s)
                r["bases"] = [types[b] for b in r["bases"]]
                self.recs.setdefault(r["t"], r)
            self.uninst += [dict(x, unit=u) for x in d["uninst"]]
            self.diags += [dict(x, unit=u) for x in d["diags"]]
            self.nodef += [dict(x, unit=u) for x in d["nodef"]]
            self.vars += [dict(x, unit=u, t=types[x["t"]]) for x in d["vars"]]
        self.byq = {}
        for f in self.funcs.values():
            self.byq.setdefault(bare(f["q"]), []).append(f)

    def _fix(self, n, types):
        """type ids -> strings, variable ids made unique over the units"""
        if isinstance(n, dict):
            for k in ("t", "rt", "ot", "from", "cls", "base"):
                if k in n and isinstance(n[k], int) and not isinstance(n[k], bool):
                    n[k] = types[n[k]] if n[k] >= 0 else "?"
            if "id" in n and isinstance(n["id"], int):
                n["id"] += self._u
            if n.get("k") == "int" and "n" in n and "t" in n:
                from .types import tinfo
                if tinfo(n["t"]).k == "cls":
                    self.enums.add(tinfo(n["t"]).s)
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    self._fix(v, types)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    self._fix(v, types)

    def find(self, q, nparams=None, const=None, ptypes=None):
        """functions whose qualified name without template arguments is q"""
        out = []
        for f in self.byq.get(q, []):
            if nparams is not None and len(f["ps"]) != nparams:
                continue
            if const is not None and f.get("const") != const:
                continue
            if ptypes is not None and not all(p in a["t"] for p, a in zip(ptypes, f["ps"])):
                continue
            out.append(f)
        return out


@functools.lru_cache(maxsize=None)
def bare(q):
    """qualified name without template arguments"""
    out, d = "", 0
    i = 0
    while i < len(q):
        ch = q[i]
        if q.startswith("operator<<", i):
            out += "operator<<"
            i += 10
            continue
        if q.startswith("operator>>", i):
            out += "operator>>"
            i += 10
            continue
        if q.startswith("operator->", i):
            out += "operator->"
            i += 10
            continue
        if q.startswith("operator<", i) and not q.startswith("operator<<", i):
            out += "operator<"
            i += 9
            continue
        if q.startswith("operator>", i):
            out += "operator>"
            i += 9
            continue
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    return out
