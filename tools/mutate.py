#!/usr/bin/env python3
"""Mutation testing: small changes to a scratch copy of /repo, judged by the quick checks of the properties of that file.
usage: mutate.py OUT.jsonl [--files sub,..] [--every N --offset K] [--seed S]
Works in /tmp/mut.<pid> (a copy of /repo and of the harness); nothing in /repo or /verif changes. Survivors are then run
through the repository's own tests. Not part of any check."""
import json, os, re, shutil, subprocess, sys, time

FILES = {
    "bencode/src/reader.rs": "B02 B04 B07 B01 B03",
    "bencode/src/value.rs": "B01 B02 B03 B04 B05 B06 B07",
    "bencode/src/value_ref.rs": "B02 B03 B04 B01 B05 B06 B07",
    "bencode/src/lib.rs": "B03 B05 B01",
    "common/src/bloom_filter.rs": "C05 D09",
    "common/src/ed25519.rs": "C06",
    "common/src/hex.rs": "C04 T01",
    "common/src/lib.rs": "C06 C05",
    "common/src/random.rs": "C06 D08",
    "common/src/sha1.rs": "C01 C02 C03 D14 C04 D12",
    "dht/src/detail.rs": "D05 B06 D01 D02",
    "dht/src/msg.rs": "D15",
    "dht/src/node.rs": "D14 D12",
    "dht/src/settings.rs": "D03 D04 D07 D08",
    "dht/src/state.rs": "D01 D02",
    "dht/src/storage.rs": "D06 D07 D09 D10 D11 D12 D13 D08",
    "src/info.rs": "T05 T06",
    "src/magnet_uri.rs": "T01 T02 T03 T04",
    "src/str_utl.rs": "S01 S02 S03 T01 T03 T04",
    "src/torrent.rs": "T05 T06 T07",
}
REPL = [
    (r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<>])>(?![>=])", [">=", "<"]), (r"(?<![<-])<(?![<=])", ["<=", ">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?! )", []), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<", [">>"]), (r">>(?!\()", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r" \^ ", [" | "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[\w(])", ["..="]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
    (r"\bSome\((?=\w)", []), (r"is_none\(\)", ["is_some()"]), (r"is_some\(\)", ["is_none()"]), (r"is_empty\(\)", ["is_empty() == false"]),
    (r"is_ok\(\)", ["is_err()"]), (r"is_err\(\)", ["is_ok()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\bis_ipv4\(\)", ["is_ipv6()"]), (r"\bis_v4\b", ["!is_v4"]),
    (r"\.position\(", [".rposition("]), (r"\.rposition\(", [".position("]), (r"\.rev\(\)", [""]), (r"\.first\(", [".last("]), (r"\.last\(", [".first("]),
    (r"\.saturating_sub\(", [".wrapping_sub("]), (r"\.saturating_add\(", [".wrapping_add("]), (r"\.wrapping_add\(", [".wrapping_sub("]),
    (r"\.checked_add\(", [".checked_sub("]), (r"\.checked_mul\(", [".checked_add("]), (r"\bif (?!let)(?=[^{]*\{)", ["if true || ", "if false && ", "if !("]),
    (r"\bto_le_bytes\b", ["to_be_bytes"]), (r"\bto_be_bytes\b", ["to_le_bytes"]), (r"from_be_bytes", ["from_le_bytes"]), (r"BigEndian", ["LittleEndian"]),
    (r"rotate_left", ["rotate_right"]), (r"leading_zeros", ["trailing_zeros"]), (r"\bOrdering::Less\b", ["Ordering::Greater"]), (r"\bu8\b(?= as| \)|;|\))", []), (r"as u32\b", ["as u16 as u32"]), (r"as usize\b", ["as u8 as usize", "as u16 as usize"]), (r"as i64\b", ["as i32 as i64"]), (r"as u64\b", ["as u32 as u64"]),
]

def code_lines(text):
    """Indices of lines outside tests, comments and hooks."""
    out, lines = [], text.split("\n")
    skip_until = None
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r"\s*#\[cfg\((test|verif_hooks)\)\]", l):
            # skip the item
            depth, started = 0, False
            j = i + 1
            while j < len(lines):
                depth += lines[j].count("{") - lines[j].count("}")
                started |= "{" in lines[j] or lines[j].rstrip().endswith(";")
                if started and depth <= 0:
                    break
                j += 1
            i = j + 1
            continue
        if l.strip() and not l.strip().startswith("//") and not re.match(r"\s*(use|mod|pub mod|pub use|#\[|#!\[)", l):
            out.append(i)
        i += 1
    return out

def strip_comment(l):
    k = l.find("//")
    return l if k < 0 or '"' in l[:k] else l[:k]

def mutants(path, text):
    lines = text.split("\n")
    for i in code_lines(text):
        l = lines[i]
        code = strip_comment(l)
        for pat, reps in REPL:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + r + code[m.end():]
                    if r == "if !(":
                        k = new.rfind("{")
                        new = new[:k].rstrip() + ") {" + new[k + 1:]
                    yield i, new
        for m in re.finditer(r"(?<![\w.\"])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.\"])", code):
            t = m.group(1).replace("_", "")
            v = int(t, 0)
            for n in {v + 1, v - 1, v * 2}:
                if n >= 0 and n != v:
                    yield i, code[:m.start()] + str(n) + code[m.end():]
        for m in re.finditer(r"b'(\\?.)'", code):
            c = m.group(1)
            if len(c) == 1 and c.isalnum():
                yield i, code[:m.start()] + "b'%s'" % chr(ord(c) + 1) + code[m.end():]
        s = code.strip()
        if s.endswith(";") and not s.startswith("let ") and "=>" not in s and s not in ("};", ");", "];") and (s.count("(") == s.count(")")) and s.count("{") == s.count("}"):
            yield i, ""
        if re.match(r"return\b.*;", s) or s == "Ok(())":
            pass
        if s.endswith("?;") and s.startswith("self") is False and s.count("(") == s.count(")"):
            pass

def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def main():
    out = sys.argv[1]
    arg = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    only = arg("--files", "").split(",") if "--files" in sys.argv else None
    every, offset = int(arg("--every", "1")), int(arg("--offset", "0"))
    w = "/tmp/mut.%d" % os.getpid()
    os.makedirs(w)
    shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(w + "/verif")
    shutil.copytree("/verif/harness", w + "/verif/harness")
    for f in ("check.sh", "known_findings.txt"):
        shutil.copy("/verif/" + f, w + "/verif/" + f)
    for c in ("hb", "hd", "ht"):
        p = "%s/verif/harness/%s/Cargo.toml" % (w, c)
        s = open(p).read().replace('"/repo', '"%s/repo' % w)
        open(p, "w").write(s)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = []
    for f in FILES:
        if only and not any(o in f for o in only):
            continue
        text = open(w + "/repo/" + f).read()
        seen = set()
        for i, new in mutants(f, text):
            if (i, new) not in seen:
                seen.add((i, new))
                todo.append((f, i, new))
    todo = [t for k, t in enumerate(todo) if k % every == offset]
    print(len(todo), "mutants", flush=True)
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    log = open(out, "a")
    try:
        for k, (f, i, new) in enumerate(todo):
            path = w + "/repo/" + f
            text = open(path).read()
            lines = text.split("\n")
            if (f, i + 1, new) in done:
                continue
            old = lines[i]
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            t = time.time()
            res = {"file": f, "line": i + 1, "old": old, "new": new}
            killed = None
            for p in FILES[f].split():
                rc, o = sh(["bash", w + "/verif/check.sh", p], w, 300, env)
                if "does not build" in o:
                    killed = "nobuild"
                    break
                if rc == 1 and "VIOLATION" in o:
                    killed = p
                    break
                if rc != 0:
                    killed = "%s rc=%d %s" % (p, rc, o[-200:])
                    break
            if killed is None:
                rc, o = sh(["cargo", "test", "--offline", "--all", "-q"], w + "/repo", 300)
                killed = "SURVIVED" if rc == 0 else "tests only"
            res["result"] = killed
            res["s"] = round(time.time() - t, 1)
            open(path, "w").write(text)
            log.write(json.dumps(res) + "\n")
            log.flush()
    finally:
        shutil.rmtree(w)

main()
