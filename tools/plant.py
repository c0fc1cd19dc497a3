#!/usr/bin/env python3
"""Makes and tries planted bugs.  plant.py make [ID..] | try [ID..] [--checks P,P] 
Specs are in tools/plants.py: PLANTS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)]."""
import sys, os, json, subprocess, shutil, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
BASE = "ccc007bd6d7003d034a8a40b8d0900f559ebf708"
DEMO = """#!/bin/bash
# Exit 0 when the property holds in the demonstrated case, 1 when it does not. Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
torrent-rs = { path = "$repo" }
bencode = { path = "$repo/bencode" }
common = { path = "$repo/common" }
dht = { path = "$repo/dht" }
[workspace]
END
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do
  if [ -e "$l" ]; then cp "$l" "$w/Cargo.lock"; break; fi
done
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks -A warnings"
cargo build --quiet --offline 2> build.log || { tail -40 build.log >&2; exit 2; }
timeout 120 "$w/target/debug/demo"
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -q -- .")
    s = sh("git -C /repo status --short").stdout
    assert not s.strip(), s
def stable():
    return set(map(str, json.load(open("/opt/vp/BASELINE.json"))["stable"]))
def make(p):
    d = f"{VERIF}/seeded/{p['id']}"
    clean()
    try:
        for f, old, new in p["edits"]:
            path = f"{REPO}/{f}"
            t = open(path).read()
            n = t.count(old)
            if n != 1:
                return f"edit text found {n} times in {f}: {old!r}"
            open(path, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        # every removed line must be original
        blame = {}
        for f in set(e[0] for e in p["edits"]):
            cur = None
        removed = 0
        f = ln = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
            elif l.startswith("-"):
                b = sh(f"git -C /repo blame -s --abbrev=39 -L {ln},{ln} HEAD -- {f}").stdout.split()[0].lstrip("^")[:38]
                anc = sh(f"git -C /repo merge-base --is-ancestor {b} {BASE}").returncode == 0
                if not anc: return f"line {f}:{ln} is not original"
                removed += 1; ln += 1
            elif l.startswith("+"): pass
            elif l.startswith(" "): ln += 1
        if not removed: return "no original line changed"
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "build fails:\n" + b.stdout[-3000:]
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        passed = set(map(str, json.load(open("/tmp/plant.json"))["passed"]))
        lost = stable() - passed
        if lost: return f"tests fail: {sorted(lost)[:5]}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(p["demo"].strip("\n") + "\n")
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r.returncode in (0, 2, 3): shutil.rmtree(d); return f"demo exits {r.returncode} with the patch: {r.stdout[-1500:]}"
        clean()
        r2 = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r2.returncode != 0: shutil.rmtree(d); return f"demo exits {r2.returncode} without the patch: {r2.stdout[-1500:]}"
        return "ok"
    finally:
        clean()
def attempt(i, props=None):
    d = f"{VERIF}/seeded/{i}"
    m = json.load(open(f"{d}/meta.json"))
    clean()
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: return "does not apply " + a.stdout
        out = []
        for q in props or [m["property"]]:
            t = time.time()
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash {VERIF}/check.sh {q}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = r.returncode == 1 and any(f"property={q} " in l for l in v)
            out.append(f"{q}:{'CAUGHT' if ok else 'missed rc=%d' % r.returncode} {time.time()-t:.1f}s")
        return " ".join(out)
    finally:
        clean()
if __name__ == "__main__":
    import plants
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--checks" in ids:
        k = ids.index("--checks"); props = ids[k + 1].split(","); ids = ids[:k] + ids[k + 2:]
    if cmd in ("make", "both"):
        for p in plants.PLANTS:
            if (ids and p["id"] not in ids) or (not ids and os.path.exists(f"{VERIF}/seeded/{p['id']}/meta.json")): continue
            r = make(p)
            print(p["id"], r, flush=True)
            if cmd == "both" and r == "ok": print("   ", attempt(p["id"], props), flush=True)
    if cmd == "try":
        for i in ids or sorted(os.listdir(f"{VERIF}/seeded")):
            print(i, attempt(i, props), flush=True)
