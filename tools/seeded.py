#!/usr/bin/env python3
"""Runs the checks against the planted bugs, in a scratch copy.  seeded.py DIR [id...]: prints which check of each bug's property sees it."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=1800, cwd=None):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout


d = sys.argv[1]
repo, ver = d + "/repo", d + "/verif"
if not os.path.exists(ver):
    os.makedirs(d, exist_ok=True)
    sh("git clone -q /repo %s && git clone -q %s %s && rm -rf %s/seeded && sed -i 's|-S /repo|-S %s|' %s/build.sh" % (repo, V, ver, ver, repo, ver))
ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rc, out = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=repo)
    verdict = "does not apply " + out if rc else ""
    if not rc:
        rc, out = sh("%s/build.sh %s/build %s" % (ver, ver, "pybliss" if meta["property"] == "P24" else ""))
        verdict = "does not build" if rc else ""
        if not rc:
            rc, out = sh("VERIF_NOBUILD=1 VERIF_SEED=1 python3 %s/check.py %s quick" % (ver, meta["property"]))
            verdict = "caught" if rc == 1 and "VIOLATION property=" + meta["property"] in out else "MISSED rc=%d %s" % (rc, out[-300:] if rc else "")
    print(i, meta["property"], verdict, flush=True)
    sh("git checkout -q -- .", cwd=repo)
