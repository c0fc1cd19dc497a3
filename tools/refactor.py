#!/usr/bin/env python3
"""Behaviour-preserving edits (refactor_edits.py), applied all together in a scratch copy: every check must stay quiet.
usage: refactor.py [2|3] [ID ...] (2, 3: the second and third set, refactor_edits2.py and refactor_edits3.py). Not part of any check."""
import os,shutil,subprocess,sys
two=sys.argv[1] if sys.argv[1:2] in (["2"],["3"]) else ""
if two: del sys.argv[1]
exp={};exec(open(os.path.dirname(os.path.abspath(__file__))+"/refactor_edits%s.py"%two).read(),exp)
w="/tmp/refactor.%d"%os.getpid()
shutil.rmtree(w,ignore_errors=True); os.makedirs(w+"/verif")
shutil.copytree("/repo",w+"/repo",ignore=shutil.ignore_patterns(".git","target"))
shutil.copytree("/verif/harness",w+"/verif/harness")
for f in("check.sh","known_findings.txt"): shutil.copy("/verif/"+f,w+"/verif/"+f)
for c in("hb","hd","ht"):
    p=f"{w}/verif/harness/{c}/Cargo.toml"; s=open(p).read().replace('"/repo','"%s/repo'%w); open(p,"w").write(s)
for f,ed in exp["REF_EDITS"].items():
    p=f"{w}/repo/{f}"; t=open(p).read()
    for a,*b in ed:
        n=t.count(a)
        if n!=1: print("COUNT",n,f,a[:80])
        if len(b)==1: t=t.replace(a,b[0])
        elif n==1:
            i=t.index(a); j=t.find(b[0],i+len(a))
            if j<0: print("NO END",f,b[0][:80])
            t=t[:i]+b[1]+t[j:]
    open(p,"w").write(t)
env=dict(os.environ,VERIF_REPO=w+"/repo",VERIF_SEED=os.environ.get("VERIF_SEED","1"),VERIF_TIER="quick")
r=subprocess.run("cargo test --offline --workspace --lib 2>&1 | grep -E '^error|test result|FAILED|failed|-->' | head -40",shell=True,cwd=w+"/repo",capture_output=True,text=True); print(r.stdout,flush=True)
ids=sys.argv[1:] or subprocess.run("python3-vt -c \"import json;print(*[json.loads(l)['id'] for l in open('/verif/properties.jsonl')])\"",shell=True,capture_output=True,text=True).stdout.split()
for q in ids:
    r=subprocess.run(["bash",w+"/verif/check.sh",q],capture_output=True,text=True,env=env)
    print(q,r.returncode,"" if r.returncode==0 else (r.stdout+r.stderr)[-400:],flush=True)
shutil.rmtree(w)
