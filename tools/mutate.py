#!/usr/bin/env python3
"""Mutation campaign: measures what the checks miss. A development tool, no check runs it.

    mutate.py OUTDIR [--workers N] [--limit N] [--files SUBSTR] [--scale F] [--seed S]

Makes scratch copies of /repo and /verif/sim under OUTDIR, applies one small syntactic change at a time,
rebuilds the simulator and probes every property (reduced number of runs); changes that no property
notices are then run through the repository's own tests. Survivors of both go to OUTDIR/survivors.jsonl.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, time

FILES = [
    "cv-core/src/pose.rs", "cv-core/src/so3.rs", "cv-core/src/point.rs", "cv-core/src/triangulation.rs",
    "cv-core/src/keypoint.rs", "cv-geom/src/triangulation.rs", "cv-geom/src/epipolar.rs",
    "cv-pinhole/src/lib.rs", "cv-pinhole/src/essential.rs", "cv-optimize/src/single_view_optimizer.rs",
    "cv-optimize/src/three_view_optimizer.rs", "eight-point/src/lib.rs", "lambda-twist/src/lib.rs",
    "nister-stewenius/src/lib.rs",
]
# The properties most likely to notice a change come first.
ORDER = {
    "cv-core/src/pose.rs": "C12 C08 C06", "cv-core/src/so3.rs": "C12 C09", "cv-core/src/point.rs": "C11 C12",
    "cv-core/src/triangulation.rs": "C02 C01", "cv-geom/src/triangulation.rs": "C02 C01 C03 C04",
    "cv-geom/src/epipolar.rs": "C09 C10 C03", "cv-pinhole/src/lib.rs": "C13 C08 C11",
    "cv-pinhole/src/essential.rs": "C05 C08 C04", "cv-optimize/src/single_view_optimizer.rs": "C09",
    "cv-optimize/src/three_view_optimizer.rs": "C10", "eight-point/src/lib.rs": "C05 C04",
    "lambda-twist/src/lib.rs": "C06", "nister-stewenius/src/lib.rs": "C07",
}
ALL = ["C%02d" % i for i in range(1, 14)]
SLAM = ["akaze/src/%s.rs" % f for f in "lib contrast_factor derivatives descriptors detector_response evolution fed_tau image nonlinear_diffusion scale_space_extrema".split()]
MAP = ["cv-sfm/src/%s.rs" % f for f in "lib bicubic settings export".split()]

SUBS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" \*= ", " /= "), (r" < ", " > "), (r" < ", " <= "), (r" > ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" >= ", " < "), (r" <= ", " < "), (r" <= ", " > "), (r" == ", " != "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\b2\.0\b", "3.0"), (r"\b0\.5\b", "1.0"),
    (r"\b3\.0\b", "2.0"), (r"\b4\.0\b", "2.0"), (r"1e-12", "1e-6"), (r"1e-12", "1e-16"), (r"1e-4\b", "1e-1"),
    (r"1e-13", "1e-5"), (r"1e-10", "1e-3"), (r"\b1000\b", "10"), (r"\b1024\b", "4"), (r"\b100\b", "2"), (r"\b50\b", "3"),
    (r"\b43\b", "0"), (r"0\.\.7\b", "0..1"), (r": 5,", ": 0,"), (r": 5,", ": 1,"),
    (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"\.w\b", ".z"), (r"\.z\b", ".y"),
    (r"(?<=[\s(,=])-(?=[a-z(])", ""), (r"\.inverse\(\)", ""), (r"\.abs\(\)", ""), (r"\.normalize\(\)", ""),
    (r"\.sqrt\(\)", ""), (r"\.recip\(\)", ""), (r"\.norm_squared\(\)", ".norm()"), (r"\.norm\(\)", ".norm_squared()"),
    (r"\.transpose\(\)", ""), (r"is_sign_positive", "is_sign_negative"), (r"is_sign_negative", "is_sign_positive"),
    (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"min_by_key", "max_by_key"), (r"is_finite\(\)", "is_nan()"),
    (r"is_nan\(\)", "is_infinite()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.cross\(", ".component_mul("), (r"unwrap_or\(2\.0\)", "unwrap_or(0.0)"), (r"\bif ", "if !"),
    (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bfirst_", "second_"), (r"\bftoc\b", "stoc"), (r"\bstoc\b", "ftoc"),
    (r"\bstof\b", "-stof"), (r"\bf\b", "s"), (r"\bs\b", "f"), (r"\brot_a\b", "rot_b"), (r"\bna\b", "nb"),
    (r"\.translation\b", ".rotation"), (r"\ba12\b", "a13"), (r"\ba23\b", "a12"), (r"\ba13\b", "a23"),
    (r"\bb12\b", "b13"), (r"\bb23\b", "b13"), (r"\bc12\b", "c23"), (r"\bc31\b", "c12"), (r"\bw0\b", "w1"),
    (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[0]"), (r"row\(2\)", "row(1)"), (r"\(0\.\.8\)", "(0..7)"),
    (r"EIGEN_THRESHOLD: f64 = 1e-12", "EIGEN_THRESHOLD: f64 = 1e-7"),
    (r"\.filter\(\|", ".filter(|_| true).filter(|"),
]


def sites(repo):
    out = []
    for f in FILES:
        lines = open(os.path.join(repo, f)).read().split("\n")
        for n, line in enumerate(lines):
            if line.strip().startswith("#[cfg(test)]"):
                break
            code = line.split("//")[0]
            s = code.strip()
            if not s or s.startswith("#") or s.startswith("use ") or "log::info" in s or s.startswith('"'):
                continue
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    new = code[: m.start()] + rep + code[m.end() :]
                    if new != code:
                        out.append((f, n, line, new, f"{pat}->{rep}@{m.start()}"))
            if s.endswith(";") and not s.startswith(("let", "use", "type", "const", "return", "pub", "mod", "fn", "}", ")", ".", "extern")) and s.count("(") == s.count(")"):
                out.append((f, n, line, "", "delete"))
    return out


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--limit", type=int, default=400)
    ap.add_argument("--files", default="")
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--slam", action="store_true", help="mutate akaze, simulated in slam/")
    ap.add_argument("--map", action="store_true", help="mutate cv-sfm, simulated in slam/")
    ap.add_argument("--retry", help="the mutants of a survivors.jsonl again, in place of new ones")
    ap.add_argument("--hours", type=float, default=2)
    a = ap.parse_args()
    out = os.path.abspath(a.out)
    global ALL
    if a.slam:
        FILES[:] = SLAM
        ALL = ["C16"] if a.retry else ["C16", "C14", "C15"]
    if a.map:
        FILES[:] = MAP
        ALL = ["C17", "C18", "C20", "C19"]
    main_dir, binary = ("slam", "mapsim") if a.map else ("slam", "slamsim") if a.slam else ("sim", "cvsim")
    build = f"cargo build --release --offline -p {binary} 2>&1"
    os.makedirs(out, exist_ok=True)
    runs = json.loads(open(os.path.join(out, "runs.json")).read()) if os.path.exists(os.path.join(out, "runs.json")) else {}
    todo = [s for s in sites("/repo") if a.files in s[0]]
    random.Random(a.seed).shuffle(todo)
    todo = todo[: a.limit]
    if a.retry:
        lines = {}
        for f in FILES:
            lines[f] = open("/repo/" + f).read().split("\n")
        todo = []
        for l in open(a.retry):
            r = json.loads(l)
            if r["old"] in lines[r["file"]][r["line"] - 1] and not re.match(r"(info|trace|debug)!", r["old"]):
                todo.append((r["file"], r["line"] - 1, lines[r["file"]][r["line"] - 1], r["new"], r["op"]))
    print(len(todo), "mutants")
    lock = threading.Lock()
    end = time.time() + a.hours * 3600
    tally = {}

    def worker(k):
        w = os.path.join(out, f"w{k}")
        if os.path.exists(w + "/repo"):
            shutil.rmtree(w + "/repo")
        os.makedirs(w + "/ws", exist_ok=True)
        sh(f"git clone -q /repo {w}/repo", "/", 100)
        for d in ["sim", "slam"]:
            os.makedirs(f"{w}/{d}", exist_ok=True)
            sh(f"cd /verif/{d} && tar c --exclude=./target . | tar x -C {w}/{d}", "/", 100)
        for p in glob.glob(w + "/s*/**/Cargo.toml", recursive=True):
            t = open(p).read().replace("/repo/", w + "/repo/").replace("incremental = false", "incremental = true").replace("debug = 1", "debug = 0")
            open(p, "w").write(t)
        for m in ["cv-core", "cv-geom", "cv-pinhole", "cv-optimize", "eight-point", "lambda-twist", "nister-stewenius"]:
            if not os.path.lexists(f"{w}/ws/{m}"):
                os.symlink(f"{w}/repo/{m}", f"{w}/ws/{m}")
        shutil.copy("/opt/vp/ws/Cargo.toml", w + "/ws/Cargo.toml")
        if os.path.exists("/opt/vp/ws/Cargo.lock"):
            shutil.copy("/opt/vp/ws/Cargo.lock", w + "/ws/Cargo.lock")
        env = dict(os.environ, CARGO_BUILD_JOBS="3", VERIF_DIR=w)
        rc, o = sh(build, w + "/" + main_dir, 900, env)
        if rc:
            print(o[-3000:])
            return
        while time.time() < end:
            with lock:
                if not todo:
                    return
                f, n, line, new, what = todo.pop()
            path = os.path.join(w, "repo", f)
            orig = open(path).read()
            ls = orig.split("\n")
            ls[n] = new
            open(path, "w").write("\n".join(ls))
            rec = {"file": f, "line": n + 1, "old": line.strip(), "new": new.strip(), "op": what}
            try:
                rc, o = sh(build, w + "/" + main_dir, 600, env)
                if rc:
                    verdict = "nobuild"
                else:
                    verdict = None
                    first = ORDER.get(f, "").split()
                    for id in first + [i for i in ALL if i not in first]:
                        nr = max(1, int(runs.get(id, 0) * a.scale)) if id in runs else None
                        r = f"--runs {nr}" if nr else ""
                        rc, o = sh(f"./target/release/{binary} probe {id} --seed 1 --threads 2 --wall 120 {r} 2>&1", w + "/" + main_dir, 400, env)
                        if rc != 0:
                            verdict = f"caught:{id}"
                            rec["msg"] = o.strip().split("\n")[-1][:300]
                            break
                    if verdict is None and binary != "cvsim":
                        verdict = "SURVIVOR"
                    if verdict is None:
                        e2 = dict(env, CARGO_TARGET_DIR=w + "/wst")
                        rc, o = sh("cargo test --workspace --features cv-core/serde-serialize,cv-pinhole/serde-serialize,cv-pinhole/alloc --no-fail-fast --offline -- --test-threads 4 --skip triangulation::test:: 2>&1", w + "/ws", 600, e2)
                        verdict = "SURVIVOR" if rc == 0 else "tests"
            finally:
                open(path, "w").write(orig)
            rec["verdict"] = verdict
            with lock:
                tally[verdict.split(":")[0]] = tally.get(verdict.split(":")[0], 0) + 1
                with open(os.path.join(out, "all.jsonl"), "a") as g:
                    g.write(json.dumps(rec) + "\n")
                if verdict in ("SURVIVOR", "tests"):
                    with open(os.path.join(out, "survivors.jsonl"), "a") as g:
                        g.write(json.dumps(rec) + "\n")
                print(tally, flush=True) if sum(tally.values()) % 20 == 0 else None

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done", tally)


if __name__ == "__main__":
    main()
