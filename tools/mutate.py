#!/usr/bin/env python3
"""Runs the checks against small edits of a scratch copy of /repo.

mutate.py SPEC.py [FILTER]   SPEC defines M = [(property, "bug"|"same", file, old, new), ...]
'bug': the check of the property must report a violation; 'same': it must stay quiet."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo")


def one(job):
    i, (pid, kind, path, old, new) = job
    d = tempfile.mkdtemp(prefix="mut%d." % i)
    try:
        shutil.copytree(SRC + "/ndt_gslam", d + "/ndt_gslam")
        edits = [(path, old, new)] if isinstance(path, str) else path
        for path, old, new in edits:
            f = d + "/ndt_gslam/" + path
            s = open(f).read()
            if old not in s:
                return i, "NO-MATCH", ""
            open(f, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, GSLAM_REPO=d, GSLAM_CACHE=d + "/facts", GSLAM_EVIDENCE=d)
        out, rcs = "", []
        for p in pid.split("+"):
            r = subprocess.run([sys.executable, HERE + "/check.py", p, "quick"], capture_output=True, text=True, env=env, timeout=900)
            out += r.stdout + r.stderr
            rcs.append(r.returncode)
        rc = 1 if 1 in rcs else max(rcs)
        return i, rc, out
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    jobs = list(enumerate(ns["M"]))
    if len(sys.argv) > 2:
        jobs = [j for j in jobs if any(x in j[1][0] for x in sys.argv[2].split(",")) or str(j[0]) in sys.argv[2].split(",")]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for i, rc, out in ex.map(one, jobs):
            pid, kind, path, old, new = ns["M"][i]
            want = 1 if kind == "bug" else 0
            ok = rc == want
            if not ok:
                bad += 1
            first = [l for l in out.splitlines() if ": [" in l][:1]
            print(("ok  " if ok else "BAD ") + "%d %s %s rc=%s %s" % (i, pid, kind, rc, repr(new)[:70] if not ok else ""),
                  (first[0][-200:] if first and not ok else ""), flush=True)
            if not ok and rc not in (0, 1):
                print("      " + out[-600:].replace("\n", "\n      "))
    print("%d of %d as expected" % (len(jobs) - bad, len(jobs)))


main()
