#!/usr/bin/env python3
"""Undo each "fix:" commit of /repo in a scratch copy and run its property's check on the result."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = []
for l in open(VERIF + "/known-findings.txt"):
    if l.startswith("fixed: property="):
        p, c = l.split()[1:3]
        fixes.append((p.split("=")[1], c))
only = sys.argv[1:]


def sh(c, cwd="/"):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def one(i):
    prop, c = fixes[i]
    w = f"/tmp/revert/w{i}"
    sh(f"/bin/rm -rf {w}; mkdir -p {w}")
    sh(f"git clone -q /repo {w}/repo")
    rc, o = sh(f"git revert --no-commit {c}", w + "/repo")
    if rc:
        rc, o = sh(f"git revert --abort; git revert --no-commit -X theirs {c}", w + "/repo")
    if rc:
        sh(f"/bin/rm -rf {w}")
        return f"{prop} {c} does not revert: {o[-200:]}"
    n = int(prop[1:])
    d, binary = ("sim", "cvsim") if n <= 13 else ("slam", "slamsim") if n <= 16 else ("slam", "mapsim")
    for x in ["sim", "slam"]:
        sh(f"mkdir -p {w}/{x} && cd {VERIF}/{x} && tar c --exclude=./target . | tar x -C {w}/{x}")
    for p in glob.glob(w + "/s*/**/Cargo.toml", recursive=True):
        t = open(p).read().replace("/repo/", w + "/repo/")
        open(p, "w").write(t)
    rc, o = sh(f"CARGO_BUILD_JOBS=3 cargo build --release --offline -p {binary} 2>&1", f"{w}/{d}")
    if rc:
        r = "nobuild " + o[-300:]
    else:
        rc, o = sh(f"VERIF_DIR={w} ./target/release/{binary} check {prop} --seed {os.environ.get("SEED", 1)} --threads 3 2>&1", f"{w}/{d}")
        r = ("caught " if rc == 1 else "MISSED " if rc == 0 else f"rc={rc} ") + o.strip().split("\n")[-2][:150]
        # What fails is kept, minimised, to be run first by every check.
        for f in glob.glob(f"{w}/replays/*.json"):
            sh(f"mkdir -p /tmp/corpus; cp {f} /tmp/corpus/{prop}-{c}.json")
    sh(f"/bin/rm -rf {w}")
    return f"{prop} {c} {r}"


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [i for i in range(len(fixes)) if not only or fixes[i][1] in only]):
        print(r, flush=True)
