#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

usage: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--repo DIR] [extra args for the check binary]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not be built/run.
"""
import os, sys, subprocess, glob, json, time, hashlib, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checkconf import CONF
def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1"); repo = os.environ.get("VERIF_REPO", "/repo")
    extra = []; evout = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = a.pop(0)
        elif x == "--repo": repo = a.pop(0)
        elif x == "--evidence": evout = a.pop(0)
        else: extra.append(x)
    t0 = time.time()
    conf = CONF.get(pid, {})
    srcs = sorted(glob.glob(os.path.join(V, "checks", pid, "*.cpp")))
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(V, "build")), pid + ("" if repo == "/repo" else "_" + hashlib.md5(repo.encode()).hexdigest()[:8]))
    os.makedirs(bdir, exist_ok=True)
    cxx = conf.get("cxx", "g++")
    flags = ["-std=gnu++14", "-O1", "-w", "-DBOOST_ALL_NO_LIB=1", "-D_GLIBCXX_ASSERTIONS"] + conf.get("flags", [])
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(V, "lib"), "-I" + os.path.join(V, "checks", pid)] + conf.get("inc", [])
    def cc(s):
        o = os.path.join(bdir, os.path.basename(s)[:-4] + ".o"); d = o[:-2] + ".d"; m = o[:-2] + ".key"
        per = conf.get("tu_flags", {}).get(os.path.basename(s), [])
        cmd = [cxx] + flags + per + inc + ["-MD", "-MF", d, "-c", s, "-o", o]
        # reuse an object only if every file it was made from has the same content
        def key():
            h = hashlib.sha256(" ".join(cmd).encode())
            deps = open(d).read().replace("\\\n", " ").split(":", 1)[1].split()
            for f in sorted(set(deps)):
                if f.startswith(("/repo", repo, V)):
                    h.update(f.encode()); h.update(open(f, "rb").read())
            return h.hexdigest(), deps
        try:
            if os.path.exists(o) and open(m).read() == key()[0]: return 0, "", s
        except Exception: pass
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode == 0:
            k, deps = key()
            bad = [f for f in deps if "boost/numeric/odeint" in f and not f.startswith(repo + "/")]
            if bad: return 2, "harness picked up a foreign odeint header: " + bad[0], s
            open(m, "w").write(k)
        return r.returncode, r.stdout, s
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        res = list(ex.map(cc, sorted(srcs, key=lambda s: -os.path.getsize(s)) + [os.path.join(V, "lib", "pbt_main.cpp")]))
    for rc, out, s in res:
        if rc:
            L = out.splitlines(); L = [l for l in L if " error: " in l or l.startswith("/verif") and "required" in l][:14] or L[:20]; print("BUILD-ERROR %s\n%s" % (s, "\n".join(x[:400] for x in L))); return 2
    exe = os.path.join(bdir, "check")
    r = subprocess.run([cxx] + flags + [os.path.join(bdir, os.path.basename(s)[:-4] + ".o") for _, _, s in res] + ["-o", exe] + conf.get("libs", []))
    if r.returncode: print("LINK-ERROR"); return 2
    tb = time.time() - t0
    budget = conf.get("budget", {}).get(tier, 45 if tier == "quick" else 600)
    ev = evout or os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    env = dict(os.environ); env.update(conf.get("env", {}))
    env.setdefault("OMP_NUM_THREADS", "2")
    cmd = conf.get("prefix", []) + [exe, "--prop", pid, "--tier", tier, "--seed", str(int(seed) + 1000003), "--budget", str(budget), "--vdir", V, "--known", os.path.join(V, "known_findings.txt"), "--jobs", os.environ.get("VERIF_JOBS", "8")]
    if "retry" in conf: cmd += ["--retry", str(conf["retry"])]
    if tier == "quick" and "quick_scale" in conf and "--scale" not in cmd: cmd += ["--scale", str(conf["quick_scale"])]
    if "--replay" not in extra: cmd += ["--out", ev]
    cmd += [x if not (extra[i-1] == "--replay" and i) else os.path.abspath(x) for i, x in enumerate(extra)]
    if os.path.exists(ev) and "--replay" not in extra: os.unlink(ev)
    r = subprocess.run(cmd, env=env, cwd=V)
    if "--replay" in extra: return r.returncode
    if r.returncode in (0, 1) and os.path.exists(ev):
        e = json.load(open(ev)); e["seed"] = int(seed); e["wall_s"] = round(time.time() - t0, 2); e["coverage"]["build_s"] = round(tb, 2)
        e["assumptions"] = conf.get("assumptions", ["g++ 13 -O1, x86-64 IEEE double, no fast-math; the references in /verif/lib are trusted"])
        json.dump(e, open(ev, "w"), indent=1)
        return r.returncode
    return 2
if __name__ == "__main__": sys.exit(main())
