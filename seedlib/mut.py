#!/usr/bin/env python3
"""mut.py FILE.py [ID...]: runs the quick check of each mutant's property against a
copy of /repo with the mutant. FILE.py defines M = [(id, prop, [(file, old, new)...])]."""
import sys, os, runpy, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])["M"]
ids = sys.argv[2:]
seed = os.environ.get("VERIF_SEED", "1")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for id, prop, edits in M:
    if ids and id not in ids: continue
    prop = os.environ.get("PROP", prop)
    R, B = "/tmp/mr-" + id, "/tmp/mb-" + id
    for d in (R, B): shutil.rmtree(d, ignore_errors=True)
    sh(f"cp -a /repo {R}"); os.makedirs(B + "/out")
    try:
        bad = False
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            n = s.count(old)
            if n != 1: print(id, f, "old text occurs", n, "times:", old[:80], flush=True); bad = True; break
            open(p, "w").write(s.replace(old, new))
        if bad: continue
        r = sh(f"bash {os.environ.get("DST", V+"/dst")}/build.sh", env=dict(os.environ, REPO=R, OUT=B))
        if r.returncode: print(id, "BUILD FAILED", r.stdout[-600:], r.stderr[-600:], flush=True); continue
        t = time.time()
        r = sh(f"nice {B}/bin/dst check -prop {prop} -tier quick -seed {seed} -evidence {B}/ev.json -out {B}/out -known {V}/known-findings.txt {os.environ.get('DST_ARGS','')}")
        lines = r.stdout.splitlines()
        v = [i for i, l in enumerate(lines) if l.startswith("VIOLATION")]
        txt = " | ".join(x.strip() for x in lines[v[0]:v[0]+3])[:300] if v else "\n".join(lines[-2:])[:300]
        print(f"{id} {prop} {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'RC%d' % r.returncode} {time.time()-t:.0f}s {txt}", flush=True)
        os.makedirs("/tmp/mutout/" + id, exist_ok=True)
        sh(f"cp -r {B}/out/. /tmp/mutout/{id}/"); open(f"/tmp/mutout/{id}/log", "w").write(r.stdout + r.stderr)
    finally:
        for d in (R, B): shutil.rmtree(d, ignore_errors=True)
