#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | --setup | --replay FILE

Builds the harness of a property from /repo's working tree, runs it, writes
evidence/<ID>.json, prints KNOWN-FINDING / VIOLATION lines, exits 0 or 1
(2: the check itself failed)."""
import concurrent.futures, fnmatch, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NIMBLE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from properties_table import PROPS, HARNESSES  # noqa: E402

CXX = "g++"
DEFS = ["-DNIMBLE_HAVE_EXODUS", "-DNIMBLE_HAVE_KOKKOS", "-DNIMBLE_HAVE_MPI", "-DNIMBLE_HAVE_TRILINOS"]
INCS = ["-I" + REPO + "/src", "-I" + REPO + "/tpl", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
        "-isystem", "/usr/include/trilinos"]
BASE = ["-std=c++14", "-w", "-fno-omit-frame-pointer"]
L = "/usr/lib/x86_64-linux-gnu/"
LIBS = [L + "openmpi/lib/libmpi_cxx.so", L + "openmpi/lib/libmpi.so"] + [L + "libtrilinos_%s.so.13.2" % n for n in (
    "tpetraext tpetrainout tpetra kokkostsqr tpetraclassiclinalg tpetraclassicnodeapi tpetraclassic epetra kokkoskernels "
    "teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser "
    "teuchoscore kokkosalgorithms kokkoscontainers kokkoscore").split()] + [L + "libexoIIv2c.so", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + rd(p) + b"\0")
    return h.hexdigest()


def lib_sources(uq=False, mpi=True):
    out = []
    for pat in ("src/*.cc", "src/integrators/*.cc", "src/contact/*.cc", "src/contact/*/*.cc") + (("src/uq/*.cc",) if uq else ()):
        out += glob.glob(os.path.join(REPO, pat))
    skip = ("nimble_main.cc", "arborx", "bvh_") + (() if mpi else ("nimble.mpi.", "parallel_contact_manager"))  # as CMakeLists.txt lists them
    return sorted(p for p in out if not any(s in os.path.basename(p) for s in skip))


def compile_one(src, flags, key, log):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp.o" % os.getpid()
    cmd = [CXX] + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stdout[-1500:]))
    os.rename(tmp, obj)
    return obj


def build(hname, log=sys.stderr):
    """returns the path of the harness executable"""
    h = HARNESSES[hname]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    t0 = time.time()
    opt = h.get("opt", ["-O2"])
    san = h.get("sanitize", [])
    defs = DEFS + h.get("defs", [])
    if h.get("nodefs"):
        defs = [d for d in defs if d not in h["nodefs"]]
    flags = BASE + opt + san + defs + ["-DNDEBUG"] + INCS + h.get("incs", [])
    hdr = tree_hash(os.path.join(REPO, "src"), (".h", ".hpp")) + tree_hash(os.path.join(REPO, "tpl"), (".h", ".hpp"))
    vhdr = tree_hash(os.path.join(VERIF, "src"), (".h",))
    jobs = []
    libs = []
    if h.get("lib", True):
        srcs = lib_sources(h.get("uq", False), "-DNIMBLE_HAVE_MPI" in defs)
        if isinstance(h.get("lib"), list):
            srcs = [s for s in srcs if os.path.relpath(s, os.path.join(REPO, "src")) in h["lib"]]
        for s in srcs:
            # a repository source whose main symbols the harness renames or exposes gets extra flags
            jobs.append((s, flags, sha("lib", " ".join(flags), hdr, os.path.relpath(s, REPO), rd(s))))
    nlib = len(jobs)
    hsrcs = [os.path.join(VERIF, "src", x) for x in h["srcs"] + ["vh.cc"]]
    for s in hsrcs:
        fl = flags + ["-I" + os.path.join(VERIF, "src")]
        jobs.append((s, fl, sha("har", " ".join(fl), hdr, vhdr, s, rd(s))))
    objs = [None] * len(jobs)
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fut = {ex.submit(compile_one, *jobs[i], log): i for i in order}
        err = None
        for f in concurrent.futures.as_completed(fut):
            try:
                objs[fut[f]] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
    link = opt + san + h.get("ldflags", [])
    ekey = sha(hname, " ".join(link), *objs)
    exe = os.path.join(BUILD, "bin", hname + "-" + ekey)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        ar = exe + ".%d.a" % os.getpid()
        hobjs = objs[nlib:]
        cmd = [CXX] + link + ["-o", tmp] + hobjs
        if nlib:
            subprocess.check_call(["ar", "qc", ar] + objs[:nlib])
            cmd += ["-Wl,--start-group", ar, "-Wl,--end-group"]
        cmd += ["-Wl,--as-needed"] + LIBS + ["-Wl,-rpath," + L + "openmpi/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(ar):
            os.unlink(ar)
        if r.returncode != 0:
            raise BuildError("link of %s failed:\n%s" % (hname, r.stdout[-1500:]))
        os.rename(tmp, exe)
    print("[build] %s ready in %.1f s" % (hname, time.time() - t0), file=log)
    return exe


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def scratch_root():
    # a tmpfs if there is one: the harnesses write many small mesh and result files
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 2 << 30:
                    return d
            except OSError:
                pass
    return "/tmp"


def run_check(pid, tier):
    prop = PROPS[pid]
    t0 = time.time()
    outdir = os.path.join(BUILD, "run")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    # a property decided by several harnesses names, for each, the property it decides there
    parts = prop.get("parts") or [(prop["harness"], pid)]
    exes = [build(h) for h, _ in parts]
    out = os.path.join(outdir, "%s.%d.json" % (pid, os.getpid()))
    limit = prop.get("limit", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    t1 = time.time()
    res = None
    for exe, (h, vp) in zip(exes, parts):
        env = dict(os.environ, OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
                   VH_PROPERTY=vp)
        cmd = [exe, "--tier", tier, "--out", out, "--scratch", scratch_root(), "--workers", str(os.cpu_count() or 8)]
        try:
            r = subprocess.run(cmd, env=env, timeout=max(1, limit - (time.time() - t1)), stdin=subprocess.DEVNULL)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            print("check %s: harness exceeded %d s" % (pid, limit))
            return 2
        if rc != 0 or not os.path.exists(out):
            print("check %s: harness ended with status %d" % (pid, rc))
            return 2
        try:
            one = json.load(open(out))
        finally:
            os.unlink(out)
        for v in one["violations"]:
            if len(parts) > 1:
                v["key"] = h + ": " + v["key"]
            v["harness"], v["decides"] = h, vp
        if res is None:
            res = one
        else:
            for k in ("evaluations", "distinct_nontrivial", "states", "transitions", "executions", "outcomes"):
                res[k] += one[k]
            res["violations"] += one["violations"]
            res["samples"] += one["samples"][:2]
            for k, n in one["counters"].items():
                res["counters"][h + " " + k] = n
            for k, n in one["notes"].items():
                res["notes"][h + " " + k] = n
        if len(parts) > 1 and res["violations"]:
            break
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]
    seen_known, fresh = {}, []
    for v in res["violations"]:
        m = next((k for k in known if any(fnmatch.fnmatchcase(v["key"], g) for g in k["keys"])), None)
        if m is not None:
            seen_known.setdefault(m["id"], (m, v))
        else:
            fresh.append(v)
    for kid, (m, v) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, m["what"]))
    cov = {
        "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": prop["rule"],
        "states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["executions"],
        "distinct_outcomes": res["outcomes"], "samples": res["samples"] or ["(none)"], "exhaustive": prop.get("exhaustive", True),
        "counters": res["counters"], "notes": res["notes"],
    }
    if not cov["distinct_nontrivial"]:
        cov["distinct_nontrivial"] = res["states"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": prop["level"],
          "coverage": cov, "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s tier: %d states, %d transitions, %d executions of the implementation, %d distinct outcomes, build+run %.1f s (run %.1f s)"
          % (pid, tier, res["states"], res["transitions"], res["executions"], res["outcomes"], time.time() - t0, time.time() - t1))
    if not fresh:
        # a run that explored next to nothing is a broken check, not a pass
        if res["executions"] < prop.get("min_executions", 1):
            print("check %s: only %d executions explored" % (pid, res["executions"]))
            return 2
        return 0
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = {}
    for v in fresh:
        shown.setdefault(v["key"], v)
    for i, (k, v) in enumerate(list(shown.items())[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "harness": v["harness"], "decides": v["decides"], "tier": tier, "key": k, "observed": v["desc"], "case": v["case"],
                   "rerun": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
        print("  %s" % v["desc"][:1500])
        print("  case: %s" % v["case"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        for h in sorted(HARNESSES):
            build(h)
        return 0
    if a[0] == "--build":
        print(build(a[1]))
        return 0
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        exe = build(r.get("harness") or PROPS[r["property"]]["harness"])
        case = r["case"].split(" [")[0]
        return subprocess.call([exe, "--tier", r["tier"], "--replay", case, "--scratch", scratch_root()],
                               env=dict(os.environ, VH_PROPERTY=r.get("decides") or r["property"]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        return run_check(a[0], tier)
    except BuildError as e:
        print("check %s: build failed\n%s" % (a[0], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
