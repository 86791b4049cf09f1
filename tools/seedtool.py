#!/usr/bin/env python3
"""seedtool.py ID [--tests] [--checks C01,C05|own] : confirm a planted bug in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, time
ID = sys.argv[1]
V = "/verif/seeded/" + ID
sc = f"/tmp/sc_{ID}"
shutil.rmtree(sc, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", sc], check=True)
env = dict(os.environ, PYTHONPATH=sc, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
           PYTHONHASHSEED="0", SPFLOW_TEST_DEVICE="cpu", CUDA_VISIBLE_DEVICES="")
out = []
try:
    r = subprocess.run(["bash", V + "/demo.sh"], cwd=sc, env=env, capture_output=True, text=True, timeout=300)
    out.append(f"demo clean rc={r.returncode}" + ("" if r.returncode == 0 else " BAD " + (r.stdout + r.stderr)[-400:]))
    a = subprocess.run(["git", "apply", V + "/patch.diff"], cwd=sc, capture_output=True, text=True)
    if a.returncode:
        sys.exit(f"{ID}: patch does not apply: {a.stderr}")
    r = subprocess.run(["bash", V + "/demo.sh"], cwd=sc, env=env, capture_output=True, text=True, timeout=300)
    out.append(f"demo patched rc={r.returncode}" + ("" if r.returncode else " BAD") + " " + (r.stdout + r.stderr).strip()[-150:].replace("\n", " | "))
    if "--tests" in sys.argv:
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x", "--maxfail=6"], cwd=sc, env=env, capture_output=True, text=True)
        out.append("tests: " + r.stdout.strip().splitlines()[-1] + "  " + " ".join(l for l in r.stdout.splitlines() if l.startswith("FAILED"))[:400])
    meta = json.load(open(V + "/meta.json"))
    cs = [meta["property"]]
    for a in sys.argv[2:]:
        if a.startswith("--checks="):
            cs = a[9:].split(",")
    if "--nocheck" not in sys.argv:
        for c in cs:
            r = subprocess.run(["/opt/venv/bin/python", "run_check.py", c, "--tier", "quick"], cwd="/verif", env=dict(env, SPMON_REPO=sc, VERIF_SEED="1"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            out.append(f"{c}: rc={r.returncode} {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout else 'MISSED'} {v[0][:200] if v else r.stderr[-200:]}")
finally:
    shutil.rmtree(sc, ignore_errors=True)
print(ID, *out, sep="\n   ")
