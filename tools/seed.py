#!/usr/bin/env python3
"""seed.py ID PROPERTY PKG FILE: makes a planted bug from /tmp/seedin/ID/{edits.py,demo_test.go}.

edits.py defines EDITS = [(file, old, new), ...], NEEDS, BREAKS, PROPERTY, PKG.
Works in a scratch copy of /repo, confirms build, stable tests and the demo both
ways, then writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Runs the demonstration test against the working tree in the current directory.
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_verif_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$ov"
timeout 200 go test -vet=off -count=1 RACE-timeout 120s -overlay "$ov" -run '^TestZZDemo' ./PKG
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def main(sid):
    src = f"/tmp/seedin/{sid}"
    ns = {}
    exec(open(src + "/edits.py").read(), ns)
    pkg = ns["PKG"]
    scratch = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        shutil.rmtree(scratch); shutil.copytree("/repo", scratch, symlinks=True)
        out = f"/tmp/seedout/{sid}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        shutil.copy(src + "/demo_test.go", out + "/demo_test.go.txt")
        open(out + "/demo.sh", "w").write(DEMO.replace("PKG", pkg).replace("RACE", ns.get("RACE", "")))
        os.chmod(out + "/demo.sh", 0o755)
        r = run(["bash", out + "/demo.sh"], scratch)
        if r.returncode != 0:
            print("DEMO FAILS ON CLEAN TREE\n", r.stdout[-3000:], r.stderr[-1500:]); return 1
        for f, old, new in ns["EDITS"]:
            p = f"{scratch}/{f}"; s = open(p).read()
            if s.count(old) != 1:
                print("edit matches", s.count(old), "times:", old); return 1
            open(p, "w").write(s.replace(old, new))
        r = run("gofmt -l mpd xml; go build ./... ", scratch)
        if r.returncode or r.stdout.strip(): print("BUILD", r.stdout, r.stderr); 
        if r.returncode: return 1
        r = run(["bash", out + "/demo.sh"], scratch)
        if r.returncode == 0:
            print("DEMO PASSES WITH THE BUG\n", r.stdout[-2000:]); return 1
        print("demo fails with bug:", [l for l in r.stdout.splitlines() if 'demo' in l or 'panic' in l][:4], r.stderr[-300:])
        T, R = scratch + "_t.json", scratch + "_r.json"
        r = run(f"go test -json -vet=off -count=1 -timeout 10m ./... > {T}; python3 /opt/vp/results.py {R} gojson:{T}", scratch)
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(R))
        def passed(d):
            for k in ("passed", "pass", "stable"):
                if k in d: return set(d[k])
            return {k for k, v in d.items() if v in ("pass", "passed", True)}
        miss = passed(base) - passed(res)
        if miss: print("TESTS FAIL:", sorted(miss)[:10], len(miss)); return 1
        d = run("git diff", scratch).stdout
        open(out + "/patch.diff", "w").write(d)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        dst = f"/verif/seeded/{sid}"
        shutil.rmtree(dst, ignore_errors=True); os.makedirs("/verif/seeded", exist_ok=True); shutil.copytree(out, dst)
        # the check
        e = dict(ENV, REPO_DIR=scratch, VERIF_ROOT=scratch + "_v")
        os.makedirs(scratch + "_v/evidence", exist_ok=True)
        r = subprocess.run(["/verif/bin/checker", ns["PROPERTY"]], env=e, capture_output=True, text=True)
        v = [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
        print(("CAUGHT " if v else "MISSED ") + sid, v or r.stdout[-500:])
    finally:
        for x in ("", "_v"): shutil.rmtree(scratch + x, ignore_errors=True)
        for x in ("_t.json", "_r.json"):
            if os.path.exists(scratch + x): os.remove(scratch + x)
for s in sys.argv[1:]:
    print("==", s); main(s)
