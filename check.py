#!/usr/bin/env python3
"""check.py PROPERTY [--facts DIR]: decides one property from /repo's current source."""
import sys, os, json, time, subprocess, importlib, traceback, fcntl, gc
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))


def sh(cmd, env=None, cwd=None, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def build_driver(B):
    src, exe = os.path.join(V, "driver/main.rs"), os.path.join(B, "factsdriver")
    stamp = os.path.join(B, "factsdriver.src")
    text = open(src).read()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == text:
        return exe
    os.makedirs(B, exist_ok=True)
    r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", exe], cwd=B)
    if r.returncode:
        print(r.stdout)
        sys.exit("building the facts driver failed")
    with open(stamp, "w") as f:
        f.write(text)
    return exe


def facts(B):
    """compile the workspace from its current source and dump its MIR"""
    exe = build_driver(B)
    out = os.path.join(B, "facts")
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WORKSPACE_WRAPPER=exe, VERIF_FACTS_DIR=out,
               CARGO_TARGET_DIR=os.path.join(B, "target"), CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "shpool-protocol", "-p", "libshpool", "-p", "shpool"], env=env, cwd=REPO)
    r = sh(["cargo", "+nightly", "check", "--workspace", "--offline", "--locked"], env=env, cwd=REPO)
    need = ["libshpool.json", "shpool-bin.json", "shpool_protocol.json"]
    if r.returncode or any(not os.path.exists(os.path.join(out, n)) for n in need):
        print(r.stdout[-4000:])
        sys.exit("the workspace does not compile under the facts driver")
    return out


def main():
    if sys.argv[1] == "--setup":
        B = BUILD
        os.makedirs(B, exist_ok=True)
        facts(B)
        print("setup ok")
        return 0
    prop = sys.argv[1]
    t0 = time.time()
    B = BUILD
    os.makedirs(B, exist_ok=True)
    fd = None
    if "--facts" in sys.argv:
        fd = sys.argv[sys.argv.index("--facts") + 1]
    else:
        lock = open(os.path.join(B, "lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        fd = facts(B)
    from sa import facts as FX, lib
    gc.disable()
    F = FX.Facts(fd)
    if "--facts" not in sys.argv:
        fcntl.flock(lock, fcntl.LOCK_UN)
    tier = os.environ.get("VERIF_TIER", "quick")
    ctx = lib.Ctx(F, prop, tier)
    mod = importlib.import_module("sa.rules." + prop.lower())
    try:
        mod.run(ctx)
    except Exception:
        # fail closed: code the analysis cannot digest is reported, never skipped
        tb = traceback.format_exc()
        print(tb)
        ctx.bad("analysis", "crash", "the analysis cannot digest this tree: " + tb.strip().split("\n")[-1], "", tb.split("\n"))
    return finish(ctx, mod, prop, tier, t0)


def finish(ctx, mod, prop, tier, t0):
    known = {}
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == prop and e.get("status", "known") == "known":
                known[e["key"]] = e
    new = [v for v in ctx.viol if v["key"] not in known]
    old = [v for v in ctx.viol if v["key"] in known]
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + ".violations.txt")
    with open(replay, "w") as f:
        for v in ctx.viol:
            f.write("%s %s\n  at %s\n  rule instance: %s\n" % ("KNOWN" if v["key"] in known else "VIOLATION", v["msg"], v["where"], v["key"]))
            for l in v["trace"]:
                f.write("    %s\n" % l)
            f.write("\n")
    nob = len(ctx.obl)
    samples = ["%s: %s -> %s" % o for o in ctx.obl[:40]]
    cov = dict(explanation=mod.EXPLAIN, rules=ctx.rules, obligations=nob,
               discharged=sum(1 for o in ctx.obl if o[2] == "ok"), counts=ctx.counts, samples=samples,
               bodies_in_program=len(ctx.F.bodies), **{k: v for k, v in ctx.info.items()})
    doc = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
               assumptions=getattr(mod, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, v["msg"], v["key"]))
    if nob == 0:
        print("no obligations were generated")
        new = new or [dict(msg="no obligations were generated", where="", key="empty", trace=[])]
    for v in new:
        print("%s: %s\n  at %s\n  instance %s" % (prop, v["msg"], v["where"], v["key"]))
        for l in v["trace"][-14:]:
            print("     " + l)
    print("%s: %d obligations, %d violated (%d known), %.1fs; counts %s" % (prop, nob, len(ctx.viol), len(old), time.time() - t0, ctx.counts))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
