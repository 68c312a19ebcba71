#!/usr/bin/env python3
"""Planted bugs: seedlib.make(...) writes seeded/<id>/; `seedlib.py verify ID...` confirms one on copies of /repo,
`seedlib.py detect ID...` runs the property's quick check against it."""
import difflib, json, os, shutil, subprocess, sys, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
REPO = Path("/repo")


def subset(name):
    s = (V / "harness" / "subsets.cmake").read_text()
    return re.search(r"set\(SUBSET_%s\n([^)]*)\)" % name, s).group(1).split()


def make(id, prop, edits, needs, breaks, demo, srcs=(), flags="", run=None):
    d = V / "seeded" / id
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    patch = ""
    by_file = {}
    for f, old, new in edits:
        by_file.setdefault(f, []).append((old, new))
    for f, es in by_file.items():
        a = (REPO / f).read_text()
        b = a
        for old, new in es:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    (d / "patch.diff").write_text(patch)
    shutil.copytree(V / "tools/seed_template/kassert", d / "kassert")
    shutil.copy(V / "tools/seed_template/demo.sh", d / "demo.sh")
    if '"g.h"' in demo:
        shutil.copy(V / "tools/seed_template/g.h", d / "g.h")
    (d / "demo.cc").write_text(demo)
    (d / "srcs.txt").write_text("\n".join(srcs) + "\n")
    if flags:
        (d / "flags.txt").write_text(flags)
    if run:
        (d / "run.sh").write_text(run)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def scratch(id, patched):
    t = Path("/tmp/seedwt/%s%s" % (id, "" if patched else ".base"))
    if t.exists():
        shutil.rmtree(t)
    t.parent.mkdir(exist_ok=True)
    sh("mkdir -p %s && cd /repo && git archive HEAD | tar -x -C %s && cp -a external/. %s/external/" % (t, t, t))
    if patched:
        r = sh("git init -q . && git apply %s" % (V / "seeded" / id / "patch.diff"), cwd=t)
        assert r.returncode == 0, r.stdout
    return t


def verify(id, only_demo=False):
    d = V / "seeded" / id
    ok = True
    if only_demo:
        return check_demo(id, ok)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    try:
        r = sh("git -C /repo apply %s && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.out.json" % (d / "patch.diff"))
        if r.returncode or "25 passed, 0 failed" not in r.stdout:
            print(id, "BUILD/TEST", r.stdout[-1500:])
            ok = False
    finally:
        sh("git -C /repo checkout -- .")
    return check_demo(id, ok)


def check_demo(id, ok):
    d = V / "seeded" / id
    out = {}
    demo = Path("/tmp/seeddemo") / id  # a place of its own, like the final check
    if demo.exists():
        shutil.rmtree(demo)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    for patched in (False, True):
        t = scratch(id, patched)
        r = sh("bash %s/demo.sh" % demo, cwd=t)
        out[patched] = (r.returncode, r.stdout[-600:])
        shutil.rmtree(t)
    shutil.rmtree(demo)
    if out[False][0] != 0 or out[True][0] in (0, 96, 97, 98, 99):
        ok = False
    print("%s: %s (unpatched %d, patched %d: %s)" % (id, "OK" if ok else "BAD", out[False][0], out[True][0], out[True][1].strip().replace("\n", " | ")[-200:]))
    if not ok:
        print(out)
    return ok


def detect(id, secs=None):
    d = V / "seeded" / id
    prop = json.loads((d / "meta.json").read_text())["property"]
    t = scratch(id, True)
    env = dict(os.environ, VERIF_REPO=str(t), VERIF_BUILD="/tmp/seedbuild/%s" % id, VERIF_SEED="1")
    r = sh("python3 %s/run.py %s %s" % (V, prop, "--secs %s" % secs if secs else ""), env=env)
    shutil.rmtree(t)
    shutil.rmtree("/tmp/seedbuild/%s" % id, ignore_errors=True)
    last = [l for l in r.stdout.splitlines() if l.strip()][-1:]
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")][:2]
    print("%s: %s rc=%d %s %s" % (id, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, last, v and v[-1][:160]), flush=True)
    return r.returncode == 1


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(x.name for x in (V / "seeded").iterdir())
    for i in ids:
        try:
            {"verify": verify, "demo": lambda i: verify(i, True), "detect": detect}[sys.argv[1]](i)
        except Exception as e:
            print(i, "FAILED", repr(e)[:500])
