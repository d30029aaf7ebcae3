#!/usr/bin/env python3
"""Writes and validates /verif/seeded from the specs beside this file.

    plant.py write [ID..]     write seeded/<id>/ (patch.diff, demo.sh and its files, meta.json)
    plant.py validate [ID..]  in scratch copies: demo passes without, fails with the patch, tests pass with it
    plant.py checks [ID..]    apply to scratch copies, run the property's check (or every check with --all)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")
CRATES = ["cv-core", "cv-geom", "cv-pinhole", "cv-optimize", "eight-point", "lambda-twist", "nister-stewenius"]


def specs():
    out = {}
    for p in sorted(glob.glob(HERE + "/specs/*.py")):
        s = importlib.util.spec_from_file_location("s", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def run(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def write(b):
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        run(f"git clone -q /repo {t}/r", "/")
        for f, old, new in b["edits"]:
            p = f"{t}/r/{f}"
            s = open(p).read()
            n = s.count(old)
            want = 1
            if isinstance(new, tuple):
                new, which = new
            else:
                which = 0
                assert n == 1, (b["id"], f, n, old)
            parts = s.split(old)
            s = old.join(parts[: which + 1]) + new + old.join(parts[which + 1 :])
            open(p, "w").write(s)
        rc, o = run("git diff", f"{t}/r")
        assert o.strip(), b["id"]
        # At least one removed line is of the original repository.
        base = subprocess.check_output("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", text=True).strip()
        orig = set()
        for f in {e[0] for e in b["edits"]}:
            orig |= set(subprocess.check_output(f"git show {base}:{f}", shell=True, cwd="/repo", text=True).split("\n"))
        removed = [l[1:] for l in o.split("\n") if l.startswith("-") and not l.startswith("---")]
        assert any(l in orig and l.strip() for l in removed), ("no original line changed", b["id"])
        open(d + "/patch.diff", "w").write(o)
    for f in ["demo.sh", "common.rs", "Cargo.toml.in"]:
        shutil.copy(f"{HERE}/{f}", d)
    shutil.copy(f"{VERIF}/sim/Cargo.lock", d)
    open(d + "/main.rs", "w").write("mod common;\n" + b["main"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def scratch(b, w):
    """A scratch copy of /repo at w/repo with the patch applied."""
    os.makedirs(w, exist_ok=True)
    rc, o = run(f"/bin/rm -rf {w}/repo && git clone -q /repo {w}/repo && cd {w}/repo && git apply {SEEDED}/{b['id']}/patch.diff", "/")
    return rc, o


def demo(b, repo):
    with tempfile.TemporaryDirectory() as t:
        d = t + "/elsewhere"
        shutil.copytree(f"{SEEDED}/{b['id']}", d)
        for f in ["patch.diff", "meta.json"]:
            os.remove(f"{d}/{f}")
        return run(f"bash {d}/demo.sh", repo, 300)


def validate(b, w):
    rc0, o0 = demo(b, "/repo")
    rc, o = scratch(b, w)
    if rc:
        return f"does not apply: {o}"
    rc1, o1 = demo(b, w + "/repo")
    ws = w + "/ws"
    os.makedirs(ws, exist_ok=True)
    for m in CRATES:
        if not os.path.lexists(f"{ws}/{m}"):
            os.symlink(f"{w}/repo/{m}", f"{ws}/{m}")
    shutil.copy("/opt/vp/ws/Cargo.toml", ws)
    if os.path.exists("/opt/vp/ws/Cargo.lock"):
        shutil.copy("/opt/vp/ws/Cargo.lock", ws)
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/wst")
    bad = []
    for k in range(2):
        rc2, o2 = run("cargo test --workspace --features cv-core/serde-serialize,cv-pinhole/serde-serialize,cv-pinhole/alloc --no-fail-fast --offline -- --test-threads 4 --skip triangulation::test:: 2>&1", ws, 900, env)
        if rc2:
            bad.append(o2[-1500:])
    ok = rc0 == 0 and rc1 == 1 and not bad
    return ("OK " if ok else "BAD ") + f"clean={rc0} patched={rc1} tests={'pass' if not bad else 'FAIL'} | {o1.strip()[-160:]}" + ("" if rc0 == 0 else o0[-1500:]) + ("" if rc1 == 1 else o1[-800:]) + ("\n".join(bad))


def checks(b, w, ids):
    rc, o = scratch(b, w)
    if rc:
        return f"does not apply: {o}"
    os.makedirs(w + "/sim", exist_ok=True)
    run(f"rsync -a --delete --exclude target {VERIF}/sim/ {w}/sim/", "/")
    p = w + "/sim/Cargo.toml"
    t = open(p).read().replace("/repo/", w + "/repo/").replace("incremental = false", "incremental = true").replace("debug = 1", "debug = 0")
    open(p, "w").write(t)
    env = dict(os.environ, CARGO_BUILD_JOBS="4", VERIF_DIR=w)
    rc, o = run("cargo build --release --offline 2>&1", w + "/sim", 900, env)
    if rc:
        return "nobuild " + o[-500:]
    res = []
    for id in ids or [b["property"]]:
        rc, o = run(f"./target/release/cvsim probe {id} --seed 1 --threads 3 2>&1", w + "/sim", 900, env)
        res.append(f"{id}:{'caught' if rc == 1 else 'MISSED' if rc == 0 else rc}" + (" " + o.strip().split("\n")[-1][:150] if rc == 1 else ""))
    return "; ".join(res)


def main():
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    every = "--all" in sys.argv
    bugs = specs()
    bugs = {k: v for k, v in bugs.items() if not ids or any(k.startswith(i) for i in ids)}
    if mode == "write":
        for b in bugs.values():
            write(b)
        return
    import queue, threading
    free = queue.Queue()
    n = int(os.environ.get("WORKERS", "2"))
    for k in range(n):
        free.put(f"/tmp/plant/w{k}")

    def one(b):
        w = free.get()
        try:
            write(b)
            r = validate(b, w) if mode == "validate" else checks(b, w, ["C%02d" % i for i in range(1, 14)] if every else [])
        except Exception as e:
            r = f"ERROR {e!r}"
        finally:
            free.put(w)
        print(b["id"], r, flush=True)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, bugs.values()))


main()
