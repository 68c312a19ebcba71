#!/usr/bin/env python3
"""Builds and runs the check of one property.

  run.py <property> [--tier quick|thorough] [--replay FILE] [--secs S] [--seed N] [--keep-going]

Environment: VERIF_SEED, VERIF_TIER (the command line wins). Exit 0: held; 1: VIOLATION; 2: no answer (build failed).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", V / "build"))
sys.path.insert(0, str(V))
from checks import CHECKS, VARIANTS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def jobs():
    return str(len(os.sched_getaffinity(0)))


def build(variant, target, quiet=True):
    d = BUILD / variant
    d.mkdir(parents=True, exist_ok=True)
    opts = ["-DREPO=%s" % REPO] + ["-D%s=%s" % kv for kv in VARIANTS[variant].items()]
    stamp, want = d / "opts", " ".join(opts)
    if not (d / "build.ninja").exists() or not stamp.exists() or stamp.read_text() != want:
        r = subprocess.run(["cmake", "-S", str(V / "harness"), "-B", str(d), "-G", "Ninja"] + opts, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout
        stamp.write_text(want)
    r = None
    for t in (target + "_min", target):
        r = subprocess.run(["ninja", "-C", str(d), "-j", jobs(), t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return d / t, ""
        if t.endswith("_min") and "unknown target" not in r.stdout:
            log("note: minimal link of %s failed, building the whole library" % target)
    return None, r.stdout


def known_findings(prop):
    out = []
    f = V / "KNOWN_FINDINGS.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        m = re.match(r"known: property=(\S+) name=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    check = CHECKS[a.prop]
    runs = [r for r in check["runs"] if a.tier in r.get("tiers", ("quick", "thorough"))]
    if a.only:
        runs = [r for r in runs if r["target"] == a.only]
    total = a.secs or check.get("secs", {}).get(a.tier, {"quick": 20, "thorough": 600}[a.tier])
    share = sum(r.get("share", 1) for r in runs)
    tmp = tempfile.mkdtemp(prefix="verif.")
    replay_dir = V / "replays"
    env0 = dict(os.environ, PBT_TIER=a.tier, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1",
                OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", REPO=str(REPO), PBT_TMPDIR=tmp)
    violations, cov = [], {"evaluations": 0, "distinct_nontrivial": 0, "rule": check["rule"], "samples": [], "nontrivial": 0, "rejected": 0, "labels": {}, "per_harness": {}, "unconfirmed": 0}
    rc = 0
    try:
        known = known_findings(a.prop)
        built = []
        for r in runs:
            exe, err = build(r.get("variant", "main"), r["target"])
            if exe is None:
                log(err[-6000:])
                log("ERROR: %s does not build" % r["target"])
                return 2
            built.append(exe)
        build_s = time.time() - t0
        if a.build_only:
            return 0
        for r, exe in zip(runs, built):
            env = dict(env0, **{k: str(v) for k, v in r.get("env", {}).items()})
            base = [str(exe), "--id", a.prop, "--seed", str(a.seed), "--tier", a.tier]
            if a.replay:
                if subprocess.run(base + ["--replay", a.replay], env=env).returncode == 1:
                    log("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                    rc = 1
                continue
            out = os.path.join(tmp, "out.json")
            if os.path.exists(out):
                os.unlink(out)
            cmd = base + ["--secs", "%.1f" % (total * r.get("share", 1) / share), "--out", out, "--replay-dir", str(replay_dir)] + [str(x) for x in r.get("args", [])]
            if a.keep_going:
                cmd += ["--keep-going"]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print(p.stdout[-5000:])
            if not os.path.exists(out):
                log("ERROR: %s ended with %d and no report" % (r["target"], p.returncode))
                rc = max(rc, 2) if rc != 1 else 1
                continue
            o = json.load(open(out))
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "rejected"):
                cov[k] += o.get(k, 0)
            cov["unconfirmed"] += len(o.get("unconfirmed", []))
            for k, v in o.get("labels", {}).items():
                cov["labels"][k] = cov["labels"].get(k, 0) + v
            cov["samples"] += [str(s)[:600] for s in o.get("samples", [])][:6]
            cov["per_harness"][r["target"] + "@" + r.get("variant", "main")] = {k: o.get(k, 0) for k in ("evaluations", "distinct_nontrivial")}
            for f in o.get("failures", []):
                violations.append(f)
                log("VIOLATION property=%s replay=%s" % (a.prop, f["replay"]))
                log("  %s: %s" % (f["tag"], f["message"][:800]))
                rc = 1
        if a.replay:
            return rc
        # Every listed finding is tried on its own; it is reported, never counted as a violation
        for name, what in known:
            for r, exe in zip(runs, built):
                p = subprocess.run([str(exe), "--id", a.prop, "--known", name], env=env0, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode == 1:
                    log("KNOWN-FINDING: property=%s %s: %s" % (a.prop, name, what))
                    break
                if p.returncode == 0:
                    log("note: the listed finding %s no longer fails" % name)
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    cov["build_s"] = round(build_s, 1)
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (a.prop + ".json")).write_text(json.dumps(ev, indent=1))
    log("%s %s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s) -> %s" % (a.prop, a.tier, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], build_s, "VIOLATED" if rc == 1 else "held" if rc == 0 else "no answer"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
