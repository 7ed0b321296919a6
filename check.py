#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] ...: builds from /repo, runs the check of one property.
Exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: error of the check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))


def main():
    pid, rest = sys.argv[1], sys.argv[2:]
    r = subprocess.run([sys.executable, os.path.join(V, "build.py"), pid], stdin=subprocess.DEVNULL)
    if r.returncode:
        print("error: the build failed")
        return 2
    fls = ["main"]
    with open(os.path.join(V, "checks", pid + ".cpp")) as f:
        for l in f:
            if l.startswith("// FLAVOURS:"):
                fls = l.split(":", 1)[1].split()
    evs, rc = [], 0
    ev = os.path.join(V, "evidence", pid + ".json")
    for fl in fls:
        exe = os.path.join(B, "bin", pid + ("" if fl == "main" else "-" + fl))
        p = subprocess.run([exe, "--root", V] + rest, stdin=subprocess.DEVNULL)
        rc = p.returncode
        if "--replay" in rest:
            if rc:
                return rc
            continue
        try:
            evs.append((fl, json.load(open(ev))))
        except (OSError, ValueError) as e:
            print("error: no evidence:", e)
            rc = rc or 2
        if rc:
            break
    if len(evs) > 1:
        out = evs[0][1]
        c = out["coverage"]
        for fl, e in evs[1:]:
            d = e["coverage"]
            c["evaluations"] += d["evaluations"]
            c["distinct_nontrivial"] += d["distinct_nontrivial"]
            c["samples"] += d["samples"][:3]
            c["flavour_" + fl] = {k: d[k] for k in ("evaluations", "distinct_nontrivial", "labels", "edges_hit_best_worker", "edges_total")}
            out["wall_s"] += e["wall_s"]
            out["violations"] += e["violations"]
        json.dump(out, open(ev, "w"))
    return rc if rc in (0, 1) else 2


sys.exit(main())
