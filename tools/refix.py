#!/usr/bin/env python3
"""Each fix: commit reverted alone in a scratch copy: the check named in known_findings.txt must report it.
usage: refix.py [COMMIT ...]. Not part of any check."""
import os, re, shutil, subprocess, sys
w = "/tmp/refix.%d" % os.getpid()
os.makedirs(w + "/verif")
shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns("target"))
shutil.copytree("/verif/harness", w + "/verif/harness")
for f in ("check.sh", "known_findings.txt"):
    shutil.copy("/verif/" + f, w + "/verif/" + f)
for c in ("hb", "hd", "ht"):
    p = f"{w}/verif/harness/{c}/Cargo.toml"
    s = open(p).read().replace('"/repo', '"%s/repo' % w)
    open(p, "w").write(s)
env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
g = lambda *a: subprocess.run(["git", "-C", w + "/repo", *a], capture_output=True, text=True)
try:
    for l in open("/verif/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+)", l)
        if not m or sys.argv[1:] and m[2] not in sys.argv[1:]:
            continue
        g("checkout", "-q", "-f", "HEAD")
        r = g("revert", "-n", m[2])
        if r.returncode:
            g("revert", "--abort"); g("reset", "-q", "--hard")
            print("CONFLICT", m[1], m[2], l[:110].strip(), flush=True)
            continue
        r = subprocess.run(["bash", w + "/verif/check.sh", m[1]], capture_output=True, text=True, env=env)
        print(r.returncode, m[1], m[2], l[:100].strip(), (r.stdout + r.stderr).strip()[-200:] if r.returncode != 1 else "", flush=True)
        g("reset", "-q", "--hard")
finally:
    shutil.rmtree(w)
