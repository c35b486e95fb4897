#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [-n N] [-s SEED] [-j JOBS] [-f REGEX]: runs the checks on a
sample of the small changes tools/mutate lists. A change that builds and leaves every check
quiet is then put to the existing tests; what they pass too is written with verdict "missed"
(which includes changes that alter nothing)."""
import sys, os, json, random, subprocess, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
src, out = sys.argv[1:3]
opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
ms = [json.loads(l) for l in open(src)]
for i, m in enumerate(ms): m["id"] = i
if "-f" in opt: ms = [m for m in ms if re.search(opt["-f"], "%s:%s:%s" % (m["file"], m["func"], m["op"]))]
random.Random(int(opt.get("-s", "1"))).shuffle(ms)
ms = ms[: int(opt.get("-n", "100"))]
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
ms = [m for m in ms if m["id"] not in done]
lock = threading.Lock(); tl = threading.local(); cnt = [0]
jobs = int(opt.get("-j", "5"))
checker = "/tmp/mw/checker"
os.makedirs("/tmp/mw", exist_ok=True); shutil.copy("/verif/bin/checker", checker)
def one(m):
    if not hasattr(tl, "d"):
        with lock: cnt[0] += 1; n = cnt[0]
        tl.d = f"/tmp/mw/{os.getpid()}_{n}"; shutil.rmtree(tl.d, ignore_errors=True)
        shutil.copytree("/repo", tl.d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(tl.d + "_v/evidence", exist_ok=True)
    d = tl.d; p = f"{d}/{m['file']}"
    orig = open(f"/repo/{m['file']}", "rb").read()
    m["old"] = orig[m["off"]:m["end"]].decode()
    open(p, "wb").write(orig[:m["off"]] + m["new"].encode() + orig[m["end"]:])
    try:
        pkg = "./" + m["file"].split("/")[0]
        r = subprocess.run(["go", "build", "./mpd", "./xml"], cwd=d, env=ENV, capture_output=True, text=True, errors="replace")
        if r.returncode: m["verdict"] = "nobuild"; return m
        try:
            r = subprocess.run([checker, "all"], env=dict(ENV, REPO_DIR=d, VERIF_ROOT=d + "_v"), capture_output=True, text=True, errors="replace", timeout=900)
        except subprocess.TimeoutExpired:
            m["verdict"] = "TIMEOUT"; return m
        v = sorted({re.search(r"property=(\w+)", l).group(1) for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        m["und"] = [l[:600] for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
        if r.returncode not in (0, 1): m["verdict"] = "CRASH"; m["und"] = r.stderr[-500:]; return m
        if v: m["verdict"] = "caught"; m["by"] = v; return m
        try:
            r = subprocess.run(["go", "test", "-count=1", "./..."], cwd=d, env=ENV, capture_output=True, text=True, errors="replace", timeout=300)
            m["verdict"] = "tests" if r.returncode else "missed"
        except subprocess.TimeoutExpired:
            m["verdict"] = "tests"
        return m
    finally:
        open(p, "wb").write(orig)
n = 0
with open(out, "a") as fo, ThreadPoolExecutor(jobs) as ex:
    for m in ex.map(one, ms):
        fo.write(json.dumps(m) + "\n"); fo.flush(); n += 1
shutil.rmtree("/tmp/mw", ignore_errors=True)
