#!/usr/bin/env python3
"""Runs one property check: builds the harness from /repo's current tree,
explores, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, hashlib, subprocess, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NUDB_REPO", "/repo")
sys.path.insert(0, V)
import checks

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def tree():
    out = []
    for sub in ("include", "tools"):
        for d, _, fs in os.walk(os.path.join(REPO, sub)):
            out += [os.path.join(d, f) for f in fs]
    return out

COMMON = ["-std=c++17", "-g1", "-fno-gnu-unique", "-DBOOST_ENABLE_ASSERT_HANDLER", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DNUDB_VERIF", "-I" + os.path.join(V, "engine"),
          "-I" + os.path.join(REPO, "include"), "-include", "stdexcept", "-w"]
LIBS = ["-lboost_thread", "-lboost_system", "-lpthread", "-ldl", "-rdynamic"]

def build(name, spec, log):
    """spec: sources with per-source flags; returns path of the binary."""
    bdir = os.path.join(V, "build", "bin"); os.makedirs(bdir, exist_ok=True)
    objs, procs = [], []
    rt = filehash(tree())
    eng = filehash(glob.glob(V + "/engine/*.hpp") + glob.glob(V + "/harness/*.hpp"))
    for src, flags in spec["src"]:
        cxx = spec.get("cxx", "g++")
        mc = "instrumented" in flags
        flags = [f for f in flags if f != "instrumented"]
        cmd = [cxx] + COMMON + spec["flags"] + flags + ["-c", os.path.join(V, src)]
        if mc: cmd = cmd[:1] + ["-fsanitize=thread"] + cmd[1:]
        usesrepo = src.startswith("harness/") or "repo" in flags
        key = hashlib.sha256((" ".join(cmd) + eng + (rt if usesrepo else "") + filehash([os.path.join(V, src)])).encode()).hexdigest()[:20]
        obj = os.path.join(bdir, os.path.basename(src) + "." + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            procs.append((src, obj, tmp, mc, subprocess.Popen(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, obj, tmp, mc, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            print("BUILD FAILED", src); print(o[-6000:]); sys.exit(2)
        if mc:
            # memory functions of the instrumented object report to the scheduler's detector
            a = sum((["--redefine-sym", x + "=mc_" + x.lstrip("_")] for x in ("memcpy", "memmove", "memset", "memcmp", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")), [])
            r = sh(["objcopy"] + a + [tmp])
            if r.returncode: print("OBJCOPY FAILED"); print(r.stdout[-3000:]); sys.exit(2)
        os.rename(tmp, obj)
    exe = os.path.join(bdir, name + "." + hashlib.sha256(" ".join(objs + spec["flags"]).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        lo = list(objs)
        if spec.get("localize"):
            # the engine gets private copies of inline functions and templates, so that it never runs instrumented ones
            eo = [o for (s_, _), o in zip(spec["src"], objs) if s_.startswith("engine/")]
            one = tmp + ".eng.o"
            r = sh(["ld", "-r", "--force-group-allocation"] + eo + ["-o", one])
            if r.returncode: print("LINK FAILED"); print(r.stdout[-3000:]); sys.exit(2)
            weak = [l.split()[-1] for l in sh(["nm", one]).stdout.splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"]
            open(one + ".syms", "w").write("\n".join(weak) + "\n")
            r = sh(["objcopy", "--localize-symbols=" + one + ".syms", one])
            if r.returncode: print("OBJCOPY FAILED"); print(r.stdout[-3000:]); sys.exit(2)
            lo = [o for o in objs if o not in eo] + [one]
        r = sh([spec.get("cxx", "g++")] + spec["flags"] + spec.get("ldflags", []) + lo + spec.get("libs", []) + LIBS + ["-o", tmp])
        if r.returncode:
            print("LINK FAILED"); print(r.stdout[-6000:]); sys.exit(2)
        os.rename(tmp, exe)
        for x in (tmp + ".eng.o", tmp + ".eng.o.syms"):
            if os.path.exists(x): os.remove(x)
    return exe

def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = l[6:].strip()
                # known: property=<id> sig=<<signature>> <what fails>
                pid = d.split("property=")[1].split()[0]
                s = d.split("sig=<<")[1].split(">>")[0]
                out.append((pid, s, d.split(">>", 1)[1].strip()))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = checks.CHECKS[pid]
    t0 = time.time()
    ncpu = min(8, os.cpu_count() or 1)
    nw = int(os.environ.get("VERIF_WORKERS", ncpu))
    rdir = os.path.join(V, "build", "run", pid + "-" + tier + "-%d" % os.getpid()); os.makedirs(rdir, exist_ok=True)
    builds = [(s, build(s["name"], s["build"], None)) for s in c["stages"]]
    tb = time.time() - t0
    budget = {"quick": 520.0, "thorough": float(os.environ.get("VERIF_BUDGET", 5400))}[tier]
    tot, sigs, viol, samples, complete, crashed = {}, {}, [], [], True, []
    stfiles, ntfiles, perstage = [], [], []
    for si, (s, exe) in enumerate(builds):
        left = budget - (time.time() - t0)
        dl = max(30.0, left / (len(builds) - si) if tier == "quick" else left * s.get("share", 1.0 / (len(builds) - si)))
        procs = []; ts = time.time()
        for w in range(nw):
            out = os.path.join(rdir, "%d.%d" % (si, w))
            cmd = [exe, "--prop=" + pid, "--tier=" + tier, "--worker=%d" % w, "--nworkers=%d" % nw, "--seed=%d" % seed,
                   "--out=" + out, "--deadline=%d" % int(dl)] + s.get("args", []) + s.get("args_" + tier, [])
            env = dict(os.environ); env["TSAN_OPTIONS"] = ""; env["UBSAN_OPTIONS"] = "print_stacktrace=1"
            procs.append((w, out, cmd, subprocess.Popen(cmd, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT, env=env, cwd=rdir)))
        st = {"stage": s["name"]}
        for w, out, cmd, p in procs:
            try: p.wait(timeout=dl + 240)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
            log = open(out + ".log", errors="replace").read()
            try: r = json.load(open(out))
            except Exception: r = None
            if r is None or p.returncode not in (0, 77):
                if r is None:
                    print("worker %d of stage %s ended with %s and no result" % (w, s["name"], p.returncode)); print(log[-3000:])
                    crashed.append((w, p.returncode, log)); complete = False
                    continue
            for k, v in r["counters"].items():
                tot[k] = tot.get(k, 0) + v; st[k] = st.get(k, 0) + v
            for k, v in r["sigs"].items(): sigs[k] = sigs.get(k, 0) + v
            for v in r["violations"]:
                v["cmd"] = " ".join(cmd[:1] + ["--prop=" + pid, "--tier=" + tier] + s.get("args", []) + s.get("args_" + tier, [])); v["log"] = log[-4000:]
                viol.append(v)
            samples += [x for x in r["samples"] if x not in samples]
            complete = complete and r["complete"]
            stfiles.append(out + ".states"); ntfiles.append(out + ".nontriv")
        st["wall_s"] = round(time.time() - ts, 1); perstage.append(st)
    def merge(fs):
        fs = [f for f in fs if os.path.exists(f)]
        if not fs: return 0
        return int(sh([builds[0][1], "--merge"] + fs).stdout.strip() or 0)
    states, nontriv = merge(stfiles), merge(ntfiles)
    kn = known(); kf_seen = {}; real = []
    for v in viol:
        m = [k for k in kn if k[0] == pid and k[1] == v["sig"]]
        if m: kf_seen.setdefault(m[0][1], m[0]); continue
        real.append(v)
    # findings listed but only counted (violations are capped per signature)
    for k in kn:
        if k[0] == pid and k[1] in sigs: kf_seen.setdefault(k[1], k)
    for s_, k in sorted(kf_seen.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k[2], sigs.get(s_, 0)))
    nviol = sum(n for s_, n in sigs.items() if s_ not in kf_seen)
    cov = {}
    lvl = c["level"]
    if lvl == "model_checking":
        cov = {"states": states, "transitions": tot.get("transitions", 0),
               "traces_validated_against_impl": tot.get("traces", tot.get("cases", 0)), "samples": samples[:8]}
    else:
        cov = {"evaluations": tot.get("evaluations", tot.get("cases", 0)), "distinct_nontrivial": nontriv, "rule": c["rule"], "samples": samples[:8]}
    cov["exhaustive"] = bool(complete)
    cov["counters"] = tot; cov["stages"] = perstage; cov["build_s"] = round(tb, 1); cov["workers"] = nw
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    rc = 0
    if real:
        rp = os.path.join(V, "build", "replay"); os.makedirs(rp, exist_ok=True)
        seen = set()
        for i, v in enumerate(real):
            if v["sig"] in seen: continue
            seen.add(v["sig"])
            f = os.path.join(rp, "%s-%d.txt" % (pid, len(seen)))
            case = v["case"].split()[1] if v["case"].startswith("case ") else ""
            open(f, "w").write("property %s\nsignature: %s\n%s\n%s\nreplay: %s --only=%s\n\n%s\n" % (pid, v["sig"], v["msg"], v["case"], v["cmd"], case, v["log"]))
            if len(seen) <= 10:
                print("VIOLATION property=%s replay=%s" % (pid, f)); print("   ", v["msg"][:400]); print("   ", v["case"][:400])
        rc = 1
    elif crashed:
        # a worker died without telling: treat as an error of the check
        rc = 2
    print("%s %s: cases=%d states=%d transitions=%d nontrivial=%d violations=%d exhaustive=%s build=%.1fs wall=%.1fs" % (
        pid, tier, tot.get("cases", 0), states, tot.get("transitions", 0), nontriv, nviol, complete, tb, time.time() - t0))
    shutil.rmtree(rdir, ignore_errors=True)
    sys.exit(rc)
main()
