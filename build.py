#!/usr/bin/env python3
"""Builds vmime from /repo's working tree with sanitizers, and the checks.

build.py [--all] [ID...]     what is up to date (by content, never by mtime) is left alone.
Output: /verif/build (ignored by git)."""
import fcntl, glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CXX = "clang++"
SAN = ("-fsanitize=address,bool,bounds,builtin,enum,float-cast-overflow,integer-divide-by-zero,null,"
       "object-size,return,returns-nonnull-attribute,shift,signed-integer-overflow,unreachable,vla-bound "
       "-fno-sanitize-recover=all").split()
COMMON = ["-std=c++17", "-O1", "-g1", "-fPIC", "-w", "-ferror-limit=4", "-fno-caret-diagnostics", "-fno-omit-frame-pointer", "-pthread",
          "-DVMIME_STATIC", "-D_REENTRANT=1", "-DDEBUG"] + SAN
COV = ["-fsanitize-coverage=inline-8bit-counters"]
FL = {
    "main": dict(libs="-lgsasl -lgnutls -licuuc -licui18n -lanl".split()),
    "alt": dict(libs="-lgsasl -lssl -lcrypto -lanl".split()),
}
DEFS = ["-DVERIF_HOOKS=1"]
_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = "absent"
    return _hash[p]


def mine(p):
    return p.startswith((REPO + "/", V + "/"))


def parse_d(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ").split(":", 1)
    return [os.path.normpath(x) for x in t[1].split()] if len(t) == 2 else None


def key_of(deps, cmd):
    h = hashlib.sha256(" ".join(cmd).encode())
    for p in sorted(set(x for x in deps if mine(x))):
        h.update((p + fhash(p)).encode())
    return h.hexdigest()


def stored(obj):
    try:
        return open(obj + ".key").read()
    except OSError:
        return None


def compile_one(job):
    src, obj, flags = job
    cmd = [CXX] + flags + ["-c", src, "-o", obj]
    deps = parse_d(obj + ".d")
    if deps and os.path.exists(obj) and stored(obj) == key_of(deps, cmd):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ["-MD", "-MF", obj + ".d"], capture_output=True, text=True)
    if r.returncode:
        return "FAILED %s\n%s" % (src, "\n".join([l for l in r.stderr.split("\n") if "error" in l or "required from" in l][:25]) or r.stderr[-3000:])
    with open(obj + ".key", "w") as f:
        f.write(key_of(parse_d(obj + ".d"), cmd))
    return ""


def run_jobs(jobs):
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        out = list(ex.map(compile_one, jobs))
    bad = [x for x in out if x and x.startswith("FAILED")]
    if bad:
        sys.stderr.write("\n".join(bad[:3]) + "\n")
        sys.exit(2)
    return any(x is not None for x in out)


def incs(fl):
    return ["-I" + os.path.join(V, "cfg", fl), "-I" + REPO + "/src", "-I" + REPO]


def link(out, cmd, inputs):
    h = hashlib.sha256((" ".join(cmd)).encode())
    for i in inputs:
        h.update((stored(i) or fhash(i)).encode())
    k = h.hexdigest()
    if os.path.exists(out) and stored(out) == k:
        return
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("LINK FAILED %s\n%s\n" % (out, r.stderr[-4000:]))
        sys.exit(2)
    with open(out + ".key", "w") as f:
        f.write(k)


def build_lib(fl):
    srcs = sorted(glob.glob(REPO + "/src/vmime/**/*.cpp", recursive=True))
    jobs = []
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        if "/platforms/windows/" in s:
            continue
        jobs.append((s, os.path.join(B, fl, rel[:-4] + ".o"), COMMON + COV + DEFS + incs(fl)))
    # biggest first: better packing
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    run_jobs(jobs)
    objs = sorted(j[1] for j in jobs)
    so = os.path.join(B, fl, "libvmime_%s.so" % fl)
    link(so, [CXX, "-shared", "-o", so] + SAN + COV + ["-Wl,-soname," + os.path.basename(so)] + objs + FL[fl]["libs"] + ["-lpthread"], objs)
    return so


def flavours(pid):
    with open(os.path.join(V, "checks", pid + ".cpp")) as f:
        for l in f:
            if l.startswith("// FLAVOURS:"):
                return l.split(":", 1)[1].split()
    return ["main"]


def extra_libs(pid):
    with open(os.path.join(V, "checks", pid + ".cpp")) as f:
        for l in f:
            if l.startswith("// LIBS:"):
                return l.split(":", 1)[1].split()
    return []


def own_coverage(pid):
    with open(os.path.join(V, "checks", pid + ".cpp")) as f:
        return any(l.startswith("// OWN-COVERAGE") for l in f)


def build_checks(pids):
    need = {}
    for p in pids:
        for f in flavours(p):
            need.setdefault(f, []).append(p)
    for fl, ps in need.items():
        so = build_lib(fl)
        jobs = []
        inc = incs(fl) + ["-I" + V + "/engine", "-I" + V + "/checks"]
        eng = os.path.join(B, fl, "pbt.o")
        jobs.append((os.path.join(V, "engine", "pbt.cpp"), eng, [f for f in COMMON if f != "-O1"] + ["-O2"] + inc))
        for p in ps:
            jobs.append((os.path.join(V, "checks", p + ".cpp"), os.path.join(B, fl, "checks", p + ".o"),
                         COMMON + (COV if own_coverage(p) else []) + ["-DPBT_" + fl.upper()] + inc))
        run_jobs(jobs)
        os.makedirs(os.path.join(B, "bin"), exist_ok=True)

        def lk(p):
            out = os.path.join(B, "bin", p + ("" if fl == "main" else "-" + fl))
            o = os.path.join(B, fl, "checks", p + ".o")
            link(out, [CXX, "-o", out] + SAN + [o, eng, so, "-Wl,-rpath," + os.path.dirname(so), "-pthread"]
                 + FL[fl]["libs"] + extra_libs(p), [o, eng, so])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lk, ps))


def main():
    a = sys.argv[1:]
    ids = [x for x in a if not x.startswith("-")]
    if "--all" in a:
        ids = sorted(os.path.basename(x)[:-4] for x in glob.glob(V + "/checks/[A-Z][0-9]*.cpp"))
    os.makedirs(B, exist_ok=True)
    t = time.time()
    with open(os.path.join(B, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        build_checks(ids)
    print("built %s in %.1f s" % (" ".join(ids), time.time() - t))


main()
