#!/usr/bin/env python3
"""quiet.py [-j N] [-p PROPS] [NAME...]: behaviour-preserving edits on which the checks must stay quiet.

Every file tools/quiet/*.py defines R = {name: [(file, old, new), ...]}. Each edit is
applied to a scratch copy of /repo, which must build and pass its tests; then all
checks (or PROPS, comma separated) run on it and every VIOLATION is printed."""
import sys, os, subprocess, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
R = {}
for f in sorted(glob.glob("/verif/tools/quiet/*.py")):
    ns = {}; exec(open(f).read(), ns); R.update(ns["R"])
args = sys.argv[1:]
jobs, props = 3, "all"
while args and args[0].startswith("-"):
    if args[0] == "-j": jobs = int(args[1])
    if args[0] == "-p": props = args[1]
    args = args[2:]
names = [n for n in R if not args or any(re.fullmatch(a, n) for a in args)]
def one(name):
    d = tempfile.mkdtemp(prefix="quiet_", dir="/tmp")
    try:
        shutil.rmtree(d); shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in R[name]:
            s = open(f"{d}/{f}").read()
            if s.count(old) != 1: return name, f"EDIT matches {s.count(old)} times: {old[:60]!r}"
            open(f"{d}/{f}", "w").write(s.replace(old, new))
        if os.environ.get("NOTEST") != "1":
            r = subprocess.run("go vet ./mpd ./xml && go test -count=1 ./mpd ./xml", shell=True, cwd=d, env=ENV, capture_output=True, text=True)
            if r.returncode: return name, "TESTS FAIL\n" + (r.stdout + r.stderr)[-1500:]
        v = d + "_v"; os.makedirs(v + "/evidence", exist_ok=True)
        out, und = [], []
        for p in props.split(","):
            r = subprocess.run(["/verif/bin/checker", p], env=dict(ENV, REPO_DIR=d, VERIF_ROOT=v), capture_output=True, text=True)
            ls = r.stdout.splitlines()
            und += [l[:200] + " ... " + "".join(re.findall(r"; runs with.{0,160}|\(by other means\)", l)) for l in ls if l.startswith("UNDECIDED")]
            out += [l[:400] for i, l in enumerate(ls) if l.startswith("VIOLATION") or (not re.match(r"UNDECIDED|KNOWN|C\d\d: ", l))]
            if r.returncode not in (0, 1): out.append("rc=%d %s" % (r.returncode, r.stderr[-300:]))
        shutil.rmtree(v, ignore_errors=True)
        return name, ("\n    ".join(out) if out else "quiet") + ("".join("\n  u " + x for x in und) if os.environ.get("UND") else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex:
    for n, r in ex.map(one, names):
        print(("ok    " if r.startswith("quiet") else "ALARM ") + n + (r[5:] if r.startswith("quiet") else "\n    " + r), flush=True)
