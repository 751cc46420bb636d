#!/usr/bin/env python3
"""Builds and runs the checks.  run.py ID [--tier quick|thorough] [--only RUN] | run.py replay ID RUN FILE | run.py setup"""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVOURS, ASSUMPTIONS  # noqa: E402

BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if ".git" in ds:
                ds.remove(".git")
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not os.path.islink(p) and os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def sh(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        with open(log, "ab") as f:
            f.write((" ".join(cmd) + "\n").encode() + r.stdout + b"\n")
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])


def obj_cmds(run, odir):
    """(output, command) for every object of one harness binary."""
    fl = FLAVOURS[run["flavour"]]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "dep"), "-I" + os.path.join(HERE, "lib")]
    base = ["-std=c++17", "-g", "-fopenmp", "-w"]
    out = []
    har = os.path.join(odir, "harness.o")
    out.append((har, ["clang++-18"] + inc + base + [run.get("opt", "-O1")] + fl["harness"] + ["-DHNAME=\"%s\"" % run["name"]] + run.get("defs", []) +
                ["-c", os.path.join(HERE, "harness", run["src"]), "-o", har]))
    for s in run.get("extra", ["common"]):
        o = os.path.join(odir, s + ".o")
        if s == "common":
            out.append((o, ["clang++-18"] + inc + base + ["-O1"] + fl["harness"] + ["-c", os.path.join(REPO, "src/common.cpp"), "-o", o]))
        elif s == "mm_io":
            out.append((o, ["clang-18"] + inc + ["-g", "-O1", "-w"] + fl["harness"] + ["-c", os.path.join(REPO, "dep/mm_io/mm_io.c"), "-o", o]))
        elif "=" in s:      # name=source:define:define ...: a program of the repository, its main renamed
            o = os.path.join(odir, s.split("=", 1)[0] + ".o")
            f = s.split("=", 1)[1].split(":")
            c = f[0].endswith(".c")
            out.append((o, (["clang-18"] + inc + ["-g", "-O1", "-w", "-fopenmp"] if c else ["clang++-18"] + inc + base + ["-O1"]) + fl["harness"] +
                        ["-D" + d for d in f[1:]] + ["-c", os.path.join(REPO, f[0]), "-o", o]))
    o = os.path.join(odir, "mcomp.o")
    out.append((o, ["clang++-18"] + inc + ["-std=c++17", "-g", "-O2", "-w"] + fl["mcomp"] + ["-c", os.path.join(HERE, "lib/mcomp.cpp"), "-o", o]))
    o = os.path.join(odir, "mc.o")
    out.append((o, ["clang++-18"] + inc + ["-std=c++17", "-g", "-O2", "-w", "-D_GLIBCXX_USE_CXX11_ABI=0", "-c", os.path.join(HERE, "lib/mc.cpp"), "-o", o]))
    return out


def localize(obj, keep, log):
    """Makes the plain global symbols of a program local, so that several programs can be linked together."""
    r = subprocess.run(["nm", "--defined-only", "-g", obj], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    mine = "_Z%d%s" % (len(keep), keep)
    names = [w[2] for w in (l.split() for l in r.stdout.splitlines()) if len(w) == 3 and w[1] in "TDBRGS" and w[2] != keep and not w[2].startswith(mine)]
    if names:
        with open(obj + ".local", "w") as f:
            f.write("\n".join(names) + "\n")
        sh(["objcopy", "--localize-symbols=" + obj + ".local", obj], log)


def build(cid):
    """Builds every binary of a check from the working tree of the repository."""
    check = CHECKS[cid]
    src = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "dep"), os.path.join(HERE, "lib"))
    jobs, links, exes = [], [], {}
    for run in check["runs"]:
        odir = os.path.join(BUILD, cid, run["name"])
        os.makedirs(odir, exist_ok=True)
        exe = os.path.join(odir, "check")
        exes[run["name"]] = exe
        key = hashlib.sha256((src + tree_hash(os.path.join(HERE, "harness", run["src"])) + json.dumps(run, sort_keys=True) +
                              json.dumps(FLAVOURS[run["flavour"]]) + REPO).encode()).hexdigest()
        stamp = os.path.join(odir, "stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            continue
        if os.path.exists(stamp):
            os.unlink(stamp)
        objs = obj_cmds(run, odir)
        jobs += [c for _, c in objs]
        fl = FLAVOURS[run["flavour"]]
        links.append((["clang++-18"] + [o for o, _ in objs] + fl["link"] + run.get("link", []) + ["-o", exe], stamp, key,
                      [(os.path.join(odir, s.split("=", 1)[0] + ".o"), s.split("=", 1)[0]) for s in run.get("extra", []) if "=" in s]))
    programs = check.get("programs", [])
    log = os.path.join(BUILD, cid, "build.log")
    os.makedirs(os.path.dirname(log), exist_ok=True)
    if os.path.exists(log):
        os.unlink(log)
    with ThreadPoolExecutor(NCPU) as ex:
        def link(l):
            for o, keep in l[3]:
                localize(o, keep, log)
            sh(l[0], log)
            with open(l[1], "w") as f:
                f.write(l[2])
        futs = [ex.submit(sh, c, log) for c in jobs]
        futs += [ex.submit(p, REPO, os.path.join(BUILD, cid), src, sh, log) for p in programs]
        for f in futs:
            f.result()
        list(ex.map(link, links))
    return exes


def known_findings(cid):
    """sig -> description, from the committed file."""
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + cid and w[2].startswith("sig="):
                res[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return res


def run_check(cid, tier, only=None):
    t0 = time.time()
    check = CHECKS[cid]
    exes = build(cid)
    tb = time.time() - t0
    known = known_findings(cid)
    out = os.path.join(BUILD, cid, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    kf = os.path.join(out, "known")
    with open(kf, "w") as f:
        f.write("".join(k + "\n" for k in known))
    results, violations, seen_known, broken = [], [], set(), []
    runs = [r for r in check["runs"] if (not only or r["name"] == only) and not (tier == "quick" and r.get("thorough_only"))]
    limit = 780 if tier == "quick" else 3300
    for run in runs:
        budget = run.get("budget", (120, 600))[0 if tier == "quick" else 1]
        budget = max(10, min(budget, limit - (time.time() - t0)))
        env = dict(os.environ)
        env.update(FLAVOURS[run["flavour"]].get("env", {}))
        env["VERIF_BUILD"] = os.path.join(BUILD, cid)
        env["VERIF_REPO"] = REPO
        env["LC_ALL"] = "C"
        cmd = [exes[run["name"]], "--out", out, "--tier", tier, "--workers", str(run.get("workers", NCPU)), "--budget", str(int(budget)), "--known", kf]
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + (200 if tier == "quick" else 900))
        except subprocess.TimeoutExpired:
            broken.append("%s did not stop" % run["name"]); continue
        jf = os.path.join(out, run["name"] + ".json")
        if r.returncode not in (0, 1) or not os.path.exists(jf):
            broken.append("%s: exit %s: %s" % (run["name"], r.returncode, r.stdout.decode(errors="replace")[-1500:])); continue
        d = json.load(open(jf))
        d["flavour"] = run["flavour"]
        results.append(d)
        for v in d["violations"]:
            if v["sig"] in known:
                seen_known.add(v["sig"])
            else:
                violations.append((run["name"], v))
        if violations and tier == "quick":
            break                                    # the answer is known; the other runs have nothing to add
    if check.get("must_find_known", True):
        for s in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (cid, known[s] or s))
    for name, v in violations:
        path = os.path.join(out, v["replay"]) if not os.path.isabs(v["replay"]) else v["replay"]
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  [%s] %s: %s" % (name, v["sig"], v["msg"][:600]))
    for b in broken:
        print("CHECK BROKEN %s: %s" % (cid, b))

    def total(k):
        return sum(int(d.get(k, 0)) for d in results)
    samples = []
    for d in results:
        for s in d["samples"][:2]:
            samples.append("[%s] %s" % (d["name"], s[:900]))
    cov = {
        "samples": samples[:12],
        "exhaustive": bool(results) and all(d["exhaustive"] for d in results) and not broken,
        "executions": total("executions"),
        "distinct_outcomes": total("outcomes"),
        "runs": [{k: d.get(k) for k in ("name", "flavour", "executions", "transitions", "states", "outcomes", "validated", "max_choices", "exhaustive", "wall_s")}
                 for d in results],
        "space": check["space"],
        "build_s": round(tb, 1),
    }
    if check["level"] == "fault_enumeration":
        cov.update({"evaluations": total("executions"), "distinct_nontrivial": total("states"), "rule": check["rule"]})
    else:
        cov.update({"states": total("states"), "transitions": total("transitions"), "traces_validated_against_impl": total("validated")})
    ev = {"property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": check["level"], "coverage": cov,
          "assumptions": ASSUMPTIONS + check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, exhaustive=%s, %d violation(s), build %.0fs, total %.0fs" %
          (cid, tier, cov["executions"], total("transitions"), total("states"), cov["exhaustive"], len(violations), tb, time.time() - t0))
    if violations:
        return 1
    return 2 if broken else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "setup":
        return subprocess.run(["clang++-18", "--version"], stdout=subprocess.DEVNULL).returncode
    if a[0] == "replay":
        cid, path = a[1], a[-1]
        exes = build(cid)
        name = a[2] if len(a) > 3 else os.path.basename(path).rsplit("-", 1)[0]
        run = next(r for r in CHECKS[cid]["runs"] if r["name"] == name)
        env = dict(os.environ); env.update(FLAVOURS[run["flavour"]].get("env", {}))
        env["VERIF_BUILD"] = os.path.join(BUILD, cid); env["VERIF_REPO"] = REPO; env["LC_ALL"] = "C"
        return subprocess.run([exes[name], "--replay", path], env=env).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    ids = sorted(CHECKS) if a[0] == "all" else a[0].split(",")
    rc = 0
    for i in ids:
        try:
            rc = max(rc, run_check(i, tier, only))
        except RuntimeError as e:
            print("CHECK BROKEN %s: build: %s" % (i, e)); rc = max(rc, 2)
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
