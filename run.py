#!/usr/bin/env python3
"""run.py ID [quick|thorough]   check one property: TLC explores MC_<ID> in lock step with the library built from /repo
   run.py --setup               build everything the checks use
   run.py --replay FILE         repeat one reported request
exit 0: held on everything explored; 1: violated ("VIOLATION property=ID replay=FILE"); 2: the check itself could not run"""
import fcntl, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.path.join(V, "build")
TLA = "/opt/veriftools/tla"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(B, "target"))
LIMIT = {"quick": 840, "thorough": 14000}


def sh(cmd, cwd=V, env=ENV, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("check could not run: %s failed" % " ".join(cmd[:6]))
        sys.exit(2)
    return r.stdout


def stale(target):
    """cargo decides by time stamps; a restored or patched file may carry an old one"""
    fp = os.path.join(target, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("seuif97") or d.startswith("vfharness"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build(prop=None):
    os.makedirs(os.path.join(B, "classes"), exist_ok=True)
    stale(os.path.join(B, "target"))
    sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "harness"))
    src = sorted(os.path.join(V, "engine/src/vf", f) for f in os.listdir(os.path.join(V, "engine/src/vf")) if f.endswith(".java"))
    sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", os.path.join(B, "classes")] + src)
    with open(os.path.join(B, "lits.txt"), "w") as f:
        f.write(sh([sys.executable, os.path.join(V, "tools/literals.py"), os.path.join(REPO, "src")]))
    if prop in ("C15", "C16", None) and os.path.exists(os.path.join(V, "tools/bindings.py")):
        import bindings
        bindings.build(prop, sh, stale, ENV, V, B, REPO)


def tlc(prop, tier, seed, module=None, extra=()):
    module = module or "MC_" + prop
    out = os.path.join(B, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    meta = os.path.join(B, "meta", prop)
    shutil.rmtree(meta, ignore_errors=True)
    rel = os.path.join(B, "target/release")
    cmd = ["java", "-Djava.io.tmpdir=" + os.path.join(B, "out", prop), "-XX:+UseParallelGC", "-Xss64m", "-Xmx14g", "--add-opens", "java.base/java.nio=ALL-UNNAMED",
           "-Dvf.prop=" + prop, "-Dvf.tier=" + tier, "-Dvf.seed=%d" % seed, "-Dvf.continue=true", "-Dvf.vmax=20",
           "-Dvf.lits=" + os.path.join(B, "lits.txt"), "-Dvf.lib=" + os.path.join(rel, "libvfharness.so"),
           "-Dvf.solo=" + os.path.join(rel, "vfsolo"), "-Dvf.bind=" + os.path.join(B, "bind"), "-Dvf.out=" + out, "-Dvf.known=" + os.path.join(V, "known_findings.txt"),
           *extra, "-cp", ":".join([os.path.join(B, "classes"), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.Overrides", "tlc2.TLC",
           "-workers", str(os.cpu_count() or 4), "-metadir", meta, "-noGenerateSpecTE",
           "-config", module + ".cfg", module + ".tla"]
    log = os.path.join(out, "tlc.log")
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(V, "spec"), stdout=f, stderr=subprocess.STDOUT, env=ENV, timeout=LIMIT[tier]).returncode
        except subprocess.TimeoutExpired:
            rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    text = open(log, errors="replace").read()
    rep = {"tick": {}, "sample": {}, "known": [], "viol": [], "vcount": {}, "viols": 0, "calls": 0}
    rf = os.path.join(out, "report.tsv")
    if os.path.exists(rf):
        for l in open(rf, errors="replace"):
            f = l.rstrip("\n").split("\t")
            if f[0] in ("tick", "vcount"): rep[f[0]][f[1]] = int(f[2])
            elif f[0] == "sample": rep["sample"][f[1]] = f[2]
            elif f[0] in ("known", "viol"): rep[f[0]].append(f[1:])
            elif f[0] in ("viols", "calls"): rep[f[0]] = int(f[1])
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found.*?(\d+) states left", text)
    rep["states"], rep["transitions"], left = (int(m[-1][1]), int(m[-1][0]), int(m[-1][2])) if m else (0, 0, -1)
    rep["done"] = rc == 0 and left == 0 and "No error has been found" in text
    return rc, rep, text


def tail(text):
    return [l for l in text.splitlines() if l.strip()][-40:]


def main():
    if len(sys.argv) < 2 or sys.argv[1] in ("-h", "--help"):
        print(__doc__)
        return 2
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "--setup":
        build()
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        print(json.dumps(r, indent=1))
        sys.argv[1:] = [r["property"], r["tier"]]
        os.environ["VERIF_SEED"] = str(r["seed"])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    build(prop)
    rc, rep, text = tlc(prop, tier, seed)
    viols = rep["viol"]
    if not viols and not rep["done"]:
        # the library took the process down (abort, stack overflow, endless loop) or the machinery failed
        crash = rc in (77, 134, 139) or "SIGSEGV" in text or "SIGABRT" in text or "StackOverflow" in text and "libvfharness" in text
        if crash and rc != 77:
            viols = [["crash", "the process ended with status %d during a call; %s" % (rc, " | ".join(tail(text)[:6]))]]
        elif rc == 77:
            viols = [["hang", "a call did not return"]]
        else:
            print("\n".join(tail(text)))
            print("check could not run: TLC ended with status %d" % rc)
            return 2
    samples = [{"site": k, "case": v} for k, v in rep["sample"].items()][:40]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": man.get(prop, {}).get("level", "model_checking"),
          "coverage": {"states": rep["states"], "transitions": rep["transitions"],
                       "traces_validated_against_impl": rep["tick"].get("behaviour", 0),
                       "calls_into_the_library": rep["calls"], "claims_checked": rep["tick"],
                       "samples": samples or ["none"], "exhaustive": rep["done"]},
          "assumptions": ["each explored behaviour is one concrete request (or request sequence) of the specification, replayed in the library",
                          "agreement is judged to 64 times the rounding bound carried by the specified value"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in rep["known"]:
        print("KNOWN-FINDING: property=%s %s (%s times) e.g. %s" % (prop, k[0], k[1], k[2] if len(k) > 2 else ""))
    if viols:
        os.makedirs(os.path.join(B, "replay"), exist_ok=True)
        path = os.path.join(B, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "counts": rep["vcount"],
                       "violations": [{"site": v[0], "what": v[1] if len(v) > 1 else ""} for v in viols],
                       "rerun": "VERIF_SEED=%d python3 /verif/run.py %s %s" % (seed, prop, tier)}, f, indent=1)
        for v in viols[:12]:
            print("  " + ": ".join(v)[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("held: property=%s tier=%s states=%d requests=%d calls=%d wall=%.0fs" % (prop, tier, rep["states"], ev["coverage"]["traces_validated_against_impl"], rep["calls"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.exit(main())
