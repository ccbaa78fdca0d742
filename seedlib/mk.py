#!/usr/bin/env python3
"""Builds and confirms a planted bug: mk.py DEF.py ...
A DEF.py defines id, property, needs, breaks, edits=[(file, old, new), ...] and
demo (Go source of func main, with its imports), and optionally pkgdir."""
import re, os, sys, subprocess, shutil, json, runpy
BASE = set(); MINPASS = 29
LIB = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(LIB), "seeded")
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main(path):
    d = runpy.run_path(path)
    id = d["id"]
    W = "/tmp/seedrepo-" + id
    shutil.rmtree(W, ignore_errors=True)
    r = sh(f"cp -a /repo {W}"); assert r.returncode == 0, r.stderr
    try:
        for f, old, new in d["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1:
                print(f"{id}: {f}: old text occurs {s.count(old)} times:\n{old}"); return False
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", W).stdout
        D = os.path.join(OUT, id)
        shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        open(D + "/patch.diff", "w").write(diff)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        pkg = d.get("pkgdir", "core")
        open(D + "/demo.sh", "w").write(open(LIB + "/demo.sh").read().replace("PKGDIR", pkg)); os.chmod(D + "/demo.sh", 0o755)
        if d.get("helper", True): shutil.copy(LIB + "/h.go", D + "/h.go")
        open(D + "/main.go", "w").write(d["demo"])
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false", GO111MODULE="on")
        r = sh(f"cd {W} && sed -E 's#^([[:space:]]*(use[[:space:]]+)?)\\./#\\1{W}/#' go.work > /tmp/{id}.work && echo 'use {W}/functions/golang/teamshooter' >> /tmp/{id}.work; cp go.work.sum /tmp/{id}.work.sum 2>/dev/null; export GOWORK=/tmp/{id}.work; go vet ./core >/dev/null; for m in $(go list -m -f '{{{{.Dir}}}}'); do (cd $m && go build -o /dev/null ./...) || exit 9; done; (cd core && go test -vet=off -v ./internal/... 2>&1); (cd core && GOWORK=off go build -o /dev/null . ./internal/...)", env=env)
        os.remove(f"/tmp/{id}.work")
        passed = set(re.findall(r"--- PASS: (\S+)", r.stdout))
        if not BASE and not d.get("base"): BASE.update(passed)
        print(id, len(passed), "tests pass")
        if r.returncode or len(passed) < MINPASS: print(id, "build/tests:", r.returncode, r.stdout[-500:], r.stderr[-2000:]); return False
        ok = sh(D + "/demo.sh", "/repo"); bad = sh(D + "/demo.sh", W)
        good = ok.returncode == 0 and bad.returncode == 1
        print(id, "clean:", ok.returncode, ok.stdout.strip()[-300:], ok.stderr[-800:], "| bug:", bad.returncode, bad.stdout.strip()[-500:], bad.stderr[-800:])
        return good
    finally:
        shutil.rmtree(W, ignore_errors=True)
res = {p: main(p) for p in sys.argv[1:]}
print(res); sys.exit(0 if all(res.values()) else 1)
