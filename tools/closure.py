#!/usr/bin/env python3
"""Writes harness/subsets.cmake: the sources of KaMinPar each harness really links, from the link maps in build/*."""
import re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
by_obj = {}
for s in list(REPO.glob("kaminpar-*/**/*.cc")) + list(REPO.glob("apps/io/*.cc")) + list(REPO.glob("apps/version.cc")):
    by_obj.setdefault(s.name + ".o", []).append(str(s.relative_to(REPO)))
out = {}
for m in sorted(V.glob("build/*/*.map")):
    head = m.read_text(errors="replace").split("Memory Configuration")[0].split("Discarded input")[0]
    files = set()
    for lib, obj in re.findall(r"^(?:\./)?lib(\w+)\.a\(([\w.]+)\)", head, re.M):
        if obj == "environment.cc.o":
            continue
        root = {"common": "kaminpar-common/", "shm": "kaminpar-shm/", "dist": "kaminpar-", "shmio": "apps/io/", "distio": "apps/io/", "cli": "", "dcli": "", "version": ""}[lib]
        c = [x for x in by_obj[obj] if x.startswith(root) and not (lib == "dist" and x.startswith(("kaminpar-shm/", "kaminpar-common/")))]
        assert len(c) >= 1, (lib, obj)
        files |= set(c)
    out[m.stem] = sorted(files)
f = V / "harness" / "subsets.cmake"
old = {}
if f.exists():
    for name, body in re.findall(r"set\(SUBSET_(\w+)([^)]*)\)", f.read_text()):
        old[name] = body.split()
old.update(out)
# slow translation units first
slow = ["lp_clusterer", "fm_refiner", "unbuffered_cluster", "lp_refiner", "subgraph_extractor"]
key = lambda x: (min([i for i, s in enumerate(slow) if s in x] or [99]), x)
f.write_text("# written by tools/closure.py\n" + "".join("set(SUBSET_%s\n  %s)\n" % (n, "\n  ".join(sorted(v, key=key))) for n, v in sorted(old.items())))
