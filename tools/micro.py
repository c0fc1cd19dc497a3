#!/usr/bin/env python3
"""Quick experiments: edits tried one at a time in a scratch copy, each judged by the quick checks of some properties.
usage: micro.py SPEC.py   where SPEC.py sets EXP = [(properties, file, old, new), ...]. Not part of any check."""
import os, shutil, subprocess, sys
exp = {}
exec(open(sys.argv[1]).read(), exp)
w = "/tmp/micro.%d" % os.getpid()
os.makedirs(w + "/verif")
shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns(".git", "target"))
shutil.copytree("/verif/harness", w + "/verif/harness")
for f in ("check.sh", "known_findings.txt"):
    shutil.copy("/verif/" + f, w + "/verif/" + f)
for c in ("hb", "hd", "ht"):
    p = f"{w}/verif/harness/{c}/Cargo.toml"
    s = open(p).read().replace('"/repo', '"%s/repo' % w)
    open(p, "w").write(s)
try:
    for prop, f, *edits in exp["EXP"]:
        p = f"{w}/repo/{f}"
        t = open(p).read()
        new, bad = t, ""
        for a, b in zip(edits[::2], edits[1::2]):
            if new.count(a) != 1:
                bad = "found %d times: %s" % (new.count(a), a)
            new = new.replace(a, b)
        if bad:
            print(prop, f, bad, flush=True)
            continue
        open(p, "w").write(new)
        for q in prop.split():
            r = subprocess.run(["bash", w + "/verif/check.sh", q], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            print("%s %s %s | %s | %s" % (["missed ", "caught ", "broken "][min(r.returncode, 2)], q, f, edits[1].strip().replace("\n", " ")[:90], (r.stdout + r.stderr).strip()[-140:].replace("\n", " ") if r.returncode != 1 else ""), flush=True)
        open(p, "w").write(t)
finally:
    shutil.rmtree(w)
