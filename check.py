#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

exit 0: held on everything analysed; exit 1 with a VIOLATION line: broken;
exit 2: the analysis could not be done (no verdict)."""
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa.registry import WHERE          # property -> rule module
from sa.rules import Report, Anchor, Lost
from sa.facts import InfraError


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> rule=<rule> func=<function> match=<text> :: description
                head, _, desc = line[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 3))
                d["desc"] = desc
                out.append(d)
    return out


class Deadline(BaseException):
    pass


def out_of_time(*_):
    raise Deadline()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build", "replay"), exist_ok=True)
    R = Report(pid, tier)
    mod = importlib.import_module("sa.rules_" + WHERE[pid])
    signal.signal(signal.SIGUSR1, out_of_time)
    timer = threading.Timer(float(os.environ.get("GSLAM_DEADLINE", "720")), lambda: os.kill(os.getpid(), signal.SIGUSR1))
    timer.daemon = True
    timer.start()
    try:
        mod.RULES[pid](R)
    except Deadline:
        R.undecided("deadline", {"f": "check", "q": "check", "n": "", "file": "?", "L": 0}, "time limit reached; what was decided so far counts")
    except InfraError as ex:
        print("ERROR property=%s the tree could not be analysed: %s" % (pid, ex))
        return 2
    except Lost as ex:
        R.undecided("representation", {"f": str(ex), "q": str(ex), "n": "", "file": "?", "L": 0}, "the private representation changed beyond what the rules follow: %s" % ex)
    except Anchor as ex:
        print("ERROR property=%s anchor lost: %s" % (pid, ex))
        return 2
    timer.cancel()
    signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    c = R.summary()
    known = [k for k in load_known() if k["property"] == pid]
    bad, found = [], set()
    for o in R.obs:
        if o["verdict"] != "violation":
            continue
        for i, k in enumerate(known):
            if k["rule"] == o["rule"] and k["func"] == o["func"] and k.get("match", "") in o["text"]:
                found.add(i)
                break
        else:
            bad.append(o)
    rules = {}
    for o in R.obs:
        r = rules.setdefault(o["rule"], {"proved": 0, "violation": 0, "undecided": 0})
        r[o["verdict"]] += 1
    und = {}
    for o in R.obs:
        if o["verdict"] == "undecided":
            und.setdefault("%s %s: %s" % (o["rule"], o["func"], o["text"][:200]), 0)
    uniq, keys = [], set()
    for o in bad:
        k = (o["rule"], o["func"], o["line"])
        if k not in keys:
            keys.add(k)
            uniq.append(o)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "abstract interpretation of the current source (normal-form value numbering with trace "
                           "partitioning over clang's type-checked syntax trees); every obligation below was generated "
                           "from the partitions of the listed functions and compared with the expected abstract value",
            "obligations": len(R.obs), "discharged": c["proved"], "undecided": c["undecided"],
            "violations": len(bad), "known_findings": len(found),
            "functions": len(R.funcs), "partitions": R.paths,
            "rules": rules, "undecided_list": sorted(und)[:60],
            "functions_analysed": sorted(R.funcs)[:400],
            "samples": [dict(o) for o in R.obs[:3]],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(os.environ.get("GSLAM_EVIDENCE") or os.path.join(HERE, "evidence"), pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("property=%s rules=%d functions=%d partitions=%d obligations=%d proved=%d undecided=%d violations=%d" % (
        pid, len(rules), len(R.funcs), R.paths, len(R.obs), c["proved"], c["undecided"], c["violation"]))
    if tier == "thorough":
        for x in sorted(und):
            print("undecided: " + x)
    for i in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i]["desc"]))
    if not R.obs or c["proved"] + c["violation"] == 0:
        print("ERROR property=%s no obligation was decided" % pid)
        return 2
    if uniq:
        rp = os.path.join(os.environ.get("GSLAM_EVIDENCE") or os.path.join(HERE, "build", "replay"), pid + ".txt")
        with open(rp, "w") as fh:
            for o in uniq:
                fh.write("%s:%s: %s: %s: %s\n" % (o["file"], o["line"], o["rule"], o["func"], o["text"]))
        for o in uniq[:20]:
            print("%s:%s: [%s] %s: %s" % (o["file"], o["line"], o["rule"], o["func"], o["text"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
