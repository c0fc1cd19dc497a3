use engine::model::{self, Val};
use engine::{turns, alloc, ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use torrent_rs::verif_hooks::info::TorrentLimits;
use torrent_rs::verif_hooks::torrent::verif::{parse, View};

type Dict = BTreeMap<String, Val>;

// ---- documents --------------------------------------------------------------------------------------------------------

/// A dictionary's entries in the given order of writing.
fn write(s: &mut Src, v: &Val, shuffle: bool, out: &mut Vec<u8>) {
    match v {
        Val::List(l) => {
            out.push(b'l');
            for v in l {
                write(s, v, shuffle, out);
            }
            out.push(b'e');
        }
        Val::Dict(d) => {
            let mut e: Vec<(&String, &Val)> = d.iter().collect();
            e.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            if shuffle {
                for i in (1..e.len()).rev() {
                    let j = s.usize(i + 1);
                    e.swap(i, j);
                }
            }
            out.push(b'd');
            for (k, v) in e {
                Val::str(k).encode(out);
                write(s, v, shuffle, out);
            }
            out.push(b'e');
        }
        v => v.encode(out),
    }
}
/// One plain path component.
fn segment(s: &mut Src) -> String {
    match s.weighted(&[8, 3, 2, 1]) {
        0 => s.pick(&["a", "b", "file.txt", "dir", "Season 1", "x.mkv", "README", "c", "1", "..."]).to_string(),
        1 => {
            let t: String = s.text(20).chars().filter(|&c| c != '/' && c != '\0').collect();
            if t.is_empty() || t == "." || t == ".." {
                "t".into()
            } else {
                t
            }
        }
        2 => s.pick(&["..a", "a..", ".hidden", "a.b", " ", "\\", "C:", "a\\b", "~", "-", "é", "..\\x", "\u{202e}txt", "con"]).to_string(),
        _ => "n".repeat(1 + s.size(255)),
    }
}
/// Tracker URLs in canonical spelling, so that parsing them changes nothing.
fn announce(s: &mut Src) -> String {
    let scheme = *s.pick(&["http", "https", "udp", "wss"]);
    let host = match s.usize(4) {
        0 => "tracker.example.com".to_string(),
        1 => "10.1.2.3".to_string(),
        2 => "[2001:db8::1]".to_string(),
        _ => format!("t{}.example", s.usize(100)),
    };
    let port = match s.usize(3) {
        0 => String::new(),
        _ => format!(":{}", 1024 + s.usize(60_000)),
    };
    if s.chance(1, 6) {
        // a literal of the code, in characters that URL parsers leave alone
        let t: String = s.literal_text(60).chars().filter(|c| c.is_ascii_alphanumeric() || "-_~!$&*+,;=:@".contains(*c)).collect();
        return format!("{}://{}{}/{}", scheme, host, port, t);
    }
    let path = *s.pick(&["/", "/announce", "/a/b/announce.php", "/announce?passkey=0123", "/x%20y", "/announce?a=b&c=%26"]);
    format!("{}://{}{}{}", scheme, host, port, path)
}
fn extra(s: &mut Src) -> (String, Val) {
    let k = match s.usize(3) {
        0 => s.pick(&["announce-list", "comment", "created by", "creation date", "encoding", "md5sum", "private", "path.utf-8", "name.utf-8", "source", "nodes", "url-list", "attr", "sha1", "Name", "infohash", "file", "lengths", "", "announc", "pieces root"]).to_string(),
        1 => format!("{}x", model::key(s)),
        _ => "z".to_string(),
    };
    let v = if s.chance(1, 40) {
        let n = s.usize(90);
        (0..n).fold(Val::Int(1), |v, _| Val::List(vec![v]))
    } else if s.bool() {
        // what such a key usually holds
        match &k[..] {
            "announce-list" => Val::List((0..s.usize(3)).map(|_| Val::List((0..1 + s.usize(2)).map(|_| Val::str(&announce(s))).collect())).collect()),
            "url-list" => Val::List((0..s.usize(3)).map(|_| Val::str(&announce(s))).collect()),
            "path.utf-8" => Val::List((0..1 + s.usize(3)).map(|_| Val::str(&segment(s))).collect()),
            "name.utf-8" | "comment" | "created by" | "Name" | "source" | "file" => Val::str(&segment(s)),
            "announc" => Val::str(&announce(s)),
            "encoding" => Val::str(*s.pick(&["UTF-8", "utf8", "GBK", "latin1"])),
            "nodes" => Val::List((0..s.usize(3)).map(|_| Val::List(vec![Val::str("router.example"), Val::Int(6881)])).collect()),
            "private" | "creation date" | "lengths" => Val::Int(s.below(3) as i64),
            "attr" => Val::str(*s.pick(&["p", "x", "h", "l", "xh"])),
            "md5sum" | "sha1" | "infohash" => Val::Bytes(s.bytes(20)),
            _ => model::val(s, 2),
        }
    } else {
        model::val(s, 2)
    };
    (k, v)
}
struct Made {
    top: Dict,
    info: Dict,
    /// Plain multi-file entries, kept apart so that mutations can reach into them.
    files: Option<Vec<Dict>>,
}
impl Made {
    fn val(&self) -> Val {
        let mut info = self.info.clone();
        if let Some(f) = &self.files {
            info.insert("files".into(), Val::List(f.iter().cloned().map(Val::Dict).collect()));
        }
        let mut top = self.top.clone();
        top.insert("info".into(), Val::Dict(info));
        Val::Dict(top)
    }
}
/// A well-formed document: coherent sizes, plain names.
fn metainfo(s: &mut Src, max_files: usize) -> (Made, View) {
    let announce_url = announce(s);
    let name = segment(s);
    let is_directory = s.bool();
    let mut sizes: Vec<u64> = vec![];
    let size = |s: &mut Src| match s.weighted(&[4, 3, 2, 1, 1]) {
        4 => s.dict_u64() & (u64::MAX >> 4),
        0 => s.below(100_000),
        1 => s.int().unsigned_abs() >> 30,
        2 => 0,
        _ => s.u64() >> 24,
    };
    let mut files = vec![];
    let mut view_files = vec![];
    let mut forced = None;
    if is_directory {
        let n = if s.chance(1, 50) { s.size(max_files) } else { s.usize(6) } + 1;
        for _ in 0..n {
            let v = size(s);
            let most = if s.chance(1, 20) { 12 } else { 4 };
            let segs: Vec<String> = (0..s.range(1, most)).map(|_| segment(s)).collect();
            let mut d = Dict::new();
            d.insert("length".into(), Val::Int(v as i64));
            d.insert("path".into(), Val::List(segs.iter().map(|t| Val::str(t)).collect()));
            while s.chance(1, 6) {
                let (k, v) = extra(s);
                if !["length", "path"].contains(&&k[..]) {
                    d.insert(k, v);
                }
            }
            sizes.push(v);
            files.push(d);
            view_files.push((PathBuf::from(segs.join("/")), v as usize));
        }
    } else if s.chance(1, 10) {
        // a given number of pieces or of bytes of piece hashes
        let k = if s.bool() { s.dict_u64() % 20_001 } else { s.size(20_000) as u64 };
        let k = if s.bool() { (k + 19) / 20 } else { k };
        let p = *s.pick(&[1 << 14, 1, 1 << 20, 3]);
        let v = (k * p).saturating_sub(s.below(p));
        forced = Some(p);
        sizes.push(v);
        view_files.push((PathBuf::from(&name), v as usize));
    } else {
        let v = if s.chance(1, 20) { i64::MAX as u64 } else { size(s) };
        sizes.push(v);
        view_files.push((PathBuf::from(&name), v as usize));
    }
    let total: u64 = sizes.iter().fold(0, |a, b| a.saturating_add(*b));
    // a piece length that needs few pieces
    let most = 1 + s.size(300) as u64;
    let least = (total + most - 1) / most;
    let piece_len = match s.usize(3) {
        0 => least.max(1),
        1 => least.max(1).checked_next_power_of_two().filter(|&p| p <= i64::MAX as u64).unwrap_or(i64::MAX as u64),
        _ if s.chance(1, 8) => (s.dict_u64() & i64::MAX as u64).max(least).clamp(1, i64::MAX as u64),
        _ => least.saturating_add(s.below(100_000)).clamp(1, i64::MAX as u64),
    };
    let piece_len = forced.unwrap_or(piece_len);
    let n = ((total as u128 + piece_len as u128 - 1) / piece_len as u128) as usize;
    let pieces = match s.usize(3) {
        0 if n < 1000 => s.bytes(20 * n),
        1 => vec![s.byte(); 20 * n],
        _ => (0..20 * n).map(|i| i as u8).collect(),
    };
    let mut info = Dict::new();
    info.insert("name".into(), Val::str(&name));
    info.insert("piece length".into(), Val::Int(piece_len as i64));
    info.insert("pieces".into(), Val::Bytes(pieces.clone()));
    while s.chance(1, 3) {
        let (k, v) = extra(s);
        if !["name", "piece length", "pieces", "length", "files"].contains(&&k[..]) {
            info.insert(k, v);
        }
    }
    if !is_directory {
        info.insert("length".into(), Val::Int(sizes[0] as i64));
    }
    let mut top = Dict::new();
    top.insert("announce".into(), Val::str(&announce_url));
    while s.chance(1, 3) {
        let (k, v) = extra(s);
        if !["announce", "info"].contains(&&k[..]) {
            top.insert(k, v);
        }
    }
    let made = Made { top, info, files: if is_directory { Some(files) } else { None } };
    let view = View { announce_url, name: Some(name), piece_len: piece_len as usize, pieces, is_directory, files: view_files };
    (made, view)
}

// ---- what a document says, independently of the code ------------------------------------------------------------------

enum Judged {
    /// Must be rejected, for this reason.
    Reject(&'static str),
    /// If accepted, it must be read like this (the announce URL's spelling is left open).
    Reads(View),
}
use Judged::*;

fn text(v: &Val) -> Option<&str> {
    match v {
        Val::Bytes(b) => std::str::from_utf8(b).ok(),
        _ => None,
    }
}
/// Whether a path text steps out of its directory, or names nothing.
fn escapes(p: &str) -> bool {
    p.starts_with('/') || p.split('/').any(|c| c == "..")
}
fn names_nothing(p: &str) -> bool {
    p.split('/').all(|c| c.is_empty() || c == ".")
}
/// URLs that no URL parser accepts; other doubtful ones are left open.
fn hopeless_url(t: &str) -> bool {
    // URL parsers drop some blanks and control characters
    if t.bytes().any(|b| b <= 0x20) {
        return false;
    }
    // no scheme at all
    let scheme: String = t.chars().take_while(|c| *c != ':').collect();
    !t.contains(':') || !scheme.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) || ["http://", "https://", "http:", "http://[", "http://a:99999/"].contains(&t)
}
fn judge(doc: &[u8]) -> Judged {
    let l = TorrentLimits::default();
    let (v, tokens) = match model::decode_tokens(doc) {
        Some(x) => x,
        None => return Reject("not a bencode document"),
    };
    if tokens.iter().any(|t| t.open > l.max_decode_depth) {
        return Reject("too deep");
    }
    if tokens.len() > l.max_decode_tokens.saturating_add(1) {
        return Reject("too many tokens");
    }
    let top = match &v {
        Val::Dict(d) => d,
        _ => return Reject("not a dictionary"),
    };
    let announce = match top.get("announce") {
        None => return Reject("no announce"),
        Some(a) => match text(a) {
            None => return Reject("announce is no text"),
            Some(t) if hopeless_url(t) => return Reject("announce is no URL"),
            Some(t) => t,
        },
    };
    let info = match top.get("info") {
        Some(Val::Dict(d)) => d,
        _ => return Reject("no info dictionary"),
    };
    let name = match info.get("name").map(text) {
        Some(Some(n)) => n,
        _ => return Reject("no name"),
    };
    if escapes(name) {
        return Reject("the name escapes");
    }
    if names_nothing(name) {
        return Reject("the name names nothing");
    }
    let piece_len = match info.get("piece length") {
        Some(Val::Int(n)) if *n > 0 => *n as usize,
        _ => return Reject("no positive piece length"),
    };
    let pieces = match info.get("pieces") {
        Some(Val::Bytes(b)) if b.len() % 20 == 0 => b.clone(),
        _ => return Reject("no piece string of a multiple of 20"),
    };
    let (is_directory, files) = match (info.get("length"), info.get("files")) {
        (Some(_), Some(_)) => return Reject("both forms"),
        (None, None) => return Reject("neither form"),
        (Some(Val::Int(n)), None) if *n >= 0 => (false, vec![(PathBuf::from(name), *n as usize)]),
        (Some(_), None) => return Reject("no valid length"),
        (None, Some(Val::List(l))) => {
            let mut files = vec![];
            for f in l {
                let f = match f {
                    Val::Dict(d) => d,
                    _ => return Reject("a file that is no dictionary"),
                };
                let len = match f.get("length") {
                    Some(Val::Int(n)) if *n >= 0 => *n as usize,
                    _ => return Reject("a file without a valid length"),
                };
                let path = match f.get("path") {
                    Some(Val::List(l)) => l,
                    _ => return Reject("a file without a path list"),
                };
                let mut segs = vec![];
                for p in path {
                    match text(p) {
                        Some(t) => segs.push(t),
                        None => return Reject("a path segment that is no text"),
                    }
                }
                if segs.iter().any(|t| escapes(t)) {
                    return Reject("a path escapes");
                }
                if segs.iter().all(|t| names_nothing(t)) {
                    return Reject("a path names nothing");
                }
                let segs: Vec<&str> = segs.into_iter().filter(|t| !t.is_empty()).collect();
                files.push((PathBuf::from(segs.join("/")), len));
            }
            (true, files)
        }
        (None, Some(_)) => return Reject("files is no list"),
    };
    Reads(View { announce_url: announce.to_string(), name: Some(name.to_string()), piece_len, pieces, is_directory, files })
}
/// Lexical containment of one path under any directory.
fn contained(p: &Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let b = p.as_os_str().as_bytes();
    let mut named = false;
    for c in b.split(|&c| c == b'/') {
        if c == b".." {
            return false;
        }
        named |= !c.is_empty() && c != b".";
    }
    named && b.first() != Some(&b'/')
}
fn same(got: &View, want: &View, doc: &[u8]) -> R {
    let d = || show(doc);
    ensure_eq!(got.name, want.name, "name of {}", d());
    ensure_eq!(got.piece_len, want.piece_len, "piece length of {}", d());
    ensure!(got.pieces == want.pieces, "pieces of {}: {} instead of {}", d(), show(&got.pieces), show(&want.pieces));
    ensure_eq!(got.is_directory, want.is_directory, "form of {}", d());
    ensure_eq!(got.files.len(), want.files.len(), "number of files of {}", d());
    for (i, (g, w)) in got.files.iter().zip(&want.files).enumerate() {
        ensure_eq!(g, w, "file {} of {}", i, d());
    }
    Ok(())
}
/// Judges one document; tells why it had to be rejected, if so, and whether it was accepted.
fn t06_one(doc: &[u8]) -> Result<(Option<&'static str>, bool), String> {
    let got = parse(doc);
    match (judge(doc), got) {
        (Reject(why), Some(g)) => Err(format!("{} is accepted ({}): {:?}", show(doc), why, brief(&g))),
        (Reject(why), None) => Ok((Some(why), false)),
        (Reads(_), None) => Ok((None, false)),
        (Reads(w), Some(g)) => {
            same(&g, &w, doc)?;
            Ok((None, true))
        }
    }
}
fn brief(v: &View) -> String {
    let f: Vec<_> = v.files.iter().take(5).collect();
    format!("announce {:?} name {:?} piece length {} files {:?}", v.announce_url, v.name, v.piece_len, f)
}

/// A valid document.
pub fn valid(s: &mut Src) -> Vec<u8> {
    let (m, _) = metainfo(s, 20);
    let mut doc = vec![];
    write(s, &m.val(), false, &mut doc);
    doc
}
/// Judges one document among others.
pub fn in_turn(doc: &[u8], valid: bool) -> R {
    let (_, ok) = t06_one(doc)?;
    ensure!(ok || !valid, "{} is rejected", show(doc));
    Ok(())
}
// ---- T05 ------------------------------------------------------------------------------------------------------------

fn t05(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        let doc = valid(&mut c.s);
        let whole = doc.clone();
        return turns::twins(c, doc, |d| in_turn(d, d == whole));
    }
    let (m, want) = metainfo(&mut c.s, 400);
    let shuffle = c.s.chance(2, 3);
    let v = m.val();
    let mut doc = vec![];
    write(&mut c.s, &v, shuffle, &mut doc);
    c.label(if want.is_directory { "several files" } else { "one file" });
    c.label_if(shuffle, "keys shuffled");
    c.label_if(v.depth() > 20, "deep extra value");
    c.key(&doc);
    c.nontrivial(true);
    c.show(|| show(&doc));
    let got = match parse(&doc) {
        Some(g) => g,
        None => return Err(format!("{} is rejected", show(&doc))),
    };
    same(&got, &want, &doc)?;
    ensure_eq!(got.announce_url, want.announce_url, "tracker of {}", show(&doc));
    Ok(())
}
fn simple(files: Option<&[(&[&str], i64)]>) -> Made {
    let mut info = Dict::new();
    info.insert("name".into(), Val::str("n"));
    info.insert("piece length".into(), Val::Int(16384));
    info.insert("pieces".into(), Val::Bytes(vec![7; 20]));
    if files.is_none() {
        info.insert("length".into(), Val::Int(5));
    }
    let top = [("announce".to_string(), Val::str("http://t.example/a"))].into_iter().collect();
    let files = files.map(|f| {
        f.iter()
            .map(|(p, n)| {
                let mut d = Dict::new();
                d.insert("length".into(), Val::Int(*n));
                d.insert("path".into(), Val::List(p.iter().map(|t| Val::str(t)).collect()));
                d
            })
            .collect()
    });
    Made { top, info, files }
}
/// Documents of exactly the limits on depth and tokens, which must be accepted, and just beyond, which must not.
fn at_limit(i: u64) -> (Vec<u8>, bool) {
    let l = TorrentLimits::default();
    let over = i % 2 == 1;
    let mut m = simple(if i / 2 % 2 == 0 { None } else { Some(&[(&["a", "b"], 3)]) });
    let base = model::decode_tokens(&m.val().to_vec()).unwrap().1.len();
    let doc = match i / 4 {
        0 => {
            // the innermost token is enclosed by `n` containers in all, one of them the document
            let n = l.max_decode_depth + usize::from(over);
            let v = (0..n - 1).fold(Val::Int(1), |v, _| Val::List(vec![v]));
            m.top.insert("z".into(), v);
            m.val().to_vec()
        }
        1 => {
            // deep in the info dictionary
            let n = l.max_decode_depth + usize::from(over);
            let v = (0..n - 2).fold(Val::Bytes(vec![]), |v, _| Val::Dict([("k".to_string(), v)].into_iter().collect()));
            m.info.insert("z".into(), v);
            m.val().to_vec()
        }
        _ => {
            // limit + 1 tokens are allowed; key and list are two more
            let n = l.max_decode_tokens + 1 + usize::from(over) - base - 2;
            m.top.insert("z".into(), Val::List(vec![Val::Bytes(vec![]); n]));
            m.val().to_vec()
        }
    };
    (doc, over)
}
fn big_count() -> u64 { (model::sizes().len() * 9 + model::HUGE.len() * 4) as u64 }
/// Well-formed documents in which one thing is large: `n` files, path segments, pieces or extra keys, or a text of `n` characters.
fn big(s: &mut Src, i: u64) -> (&'static str, Made, View) {
    let i = i % big_count();
    let (n, kind) = match (i as usize).checked_sub(model::sizes().len() * 9) {
        Some(i) => (model::HUGE[i % model::HUGE.len()], [2, 3, 4, 5][i / model::HUGE.len()]),
        None => (model::sizes()[i as usize % model::sizes().len()], i as usize / model::sizes().len()),
    };
    let n = if kind == 4 { n.min(1_100_000 + n % 7) } else { n };
    let long = |c: char, n: usize| -> String { std::iter::repeat(c).take(n).collect() };
    let multi = match kind {
        0 | 1 | 3 => true,
        4 => false,
        _ => s.bool(),
    };
    let mut files = vec![];
    match kind {
        0 => {
            for k in 0..n.min(150_000) {
                let dir = format!("d{}", k / 1000);
                files.push((if k % 3 == 0 { vec![format!("f{}", k)] } else { vec![dir, format!("f{}", k)] }, k as u64 * 7 % 100_003));
            }
        }
        1 => files.push(((0..n).map(|k| format!("s{}", k % 977)).collect(), 5)),
        3 => files.push((vec!["a".into(), long(*s.pick(&['n', '.', 'é', ' ', '\\']), n) + "z", "b".into()], 5)),
        _ => files.push((vec!["a".into(), "b".into()], 5)),
    }
    if multi && s.bool() {
        // something ordinary on either side
        files.insert(0, (vec!["first".into()], 11));
        files.push((vec!["last".into()], 13));
    }
    let name = if kind == 2 { long(*s.pick(&['n', '.', 'é', ' ', '\\']), n) + "z" } else { "name".to_string() };
    let announce = if kind == 5 { format!("http://t.example/{}", long('p', n)) } else { "udp://t.example:6969/announce".to_string() };
    let total: u64 = if kind == 4 { n as u64 * 65_536 - s.below(65_536) } else if multi { files.iter().map(|f| f.1).sum() } else { 77 };
    let piece_len = 65_536u64;
    let pieces: Vec<u8> = (0..20 * ((total + piece_len - 1) / piece_len)).map(|k| (k / 20 * 31 + k) as u8).collect();
    let mut info = Dict::new();
    info.insert("name".into(), Val::str(&name));
    info.insert("piece length".into(), Val::Int(piece_len as i64));
    info.insert("pieces".into(), Val::Bytes(pieces.clone()));
    if !multi {
        info.insert("length".into(), Val::Int(total as i64));
    }
    let mut top = Dict::new();
    top.insert("announce".into(), Val::str(&announce));
    match kind {
        6 | 7 => {
            let d = if kind == 6 { &mut info } else { &mut top };
            for k in 0..n {
                d.insert(format!("{}{}", ["a", "lengt", "z"][k % 3], k), Val::Int(k as i64));
            }
        }
        8 => {
            let m = n.min(262_145);
            top.insert("z".into(), Val::List((0..m).map(|k| if k % 2 == 0 { Val::Int(k as i64) } else { Val::Bytes(vec![b'x'; k % 9]) }).collect()));
            top.insert("comment".into(), Val::Bytes(vec![b'c'; n]));
        }
        _ => {}
    }
    let view_files: Vec<(PathBuf, usize)> = if multi { files.iter().map(|(p, n)| (PathBuf::from(p.join("/")), *n as usize)).collect() } else { vec![(PathBuf::from(&name), total as usize)] };
    let dicts = files
        .iter()
        .map(|(p, n)| {
            let mut d = Dict::new();
            d.insert("length".into(), Val::Int(*n as i64));
            d.insert("path".into(), Val::List(p.iter().map(|t| Val::str(t)).collect()));
            d
        })
        .collect();
    let made = Made { top, info, files: if multi { Some(dicts) } else { None } };
    let view = View { announce_url: announce, name: Some(name), piece_len: piece_len as usize, pieces, is_directory: multi, files: view_files };
    let l = ["many files", "many path segments", "a long name", "a long path segment", "many pieces", "a long tracker URL", "many keys in info", "many keys", "large foreign values"][kind];
    (l, made, view)
}
pub const T05: Prop = Prop {
    id: "T05",
    rule: "well-formed single- and multi-file documents with coherent sizes up to the signed 64-bit range, Unicode names and paths, extra keys of every kind (some nested up to 90 deep), keys in canonical and in random order; documents of exactly the depth and token limits; documents with up to 150000 files or 262145 path segments, pieces, keys or characters of text; every Unicode character in names and next to parent steps. Non-trivial: every case.",
    assumptions: &["tracker URLs are generated in canonical spelling", "path segments are plain file names"],
    quick: 120_000,
    thorough: 2_000_000,
    case: t05,
    phases: &[Phase {
        name: "every character in a name",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            for x in model::chars_block(i).filter(|&x| x != '/' && x != '\0') {
                for t in [x.to_string(), format!("{}a", x), format!("a{}", x), format!("..{}", x), format!("{}..", x)] {
                    if t == "." || t == ".." {
                        continue;
                    }
                    if x as u32 >= 0x1_0000 && t.len() > 4 + x as usize % 3 {
                        continue;
                    }
                    let mut one = simple(None);
                    one.info.insert("name".into(), Val::str(&t));
                    one.top.insert(t.clone(), Val::Int(1));
                    let mut many = simple(Some(&[(&["a", &t, "b"], 1), (&[&t], 2), (&["a", &t], 3), (&[&t, "c"], 4)]));
                    many.info.insert("name".into(), Val::str(&t));
                    many.info.insert(t.clone(), Val::Int(1));
                    for m in [one, many] {
                        let doc = m.val().to_vec();
                        let want = match judge(&doc) {
                            Reads(w) => w,
                            Reject(why) => return Err(format!("the reference rejects {}: {}", show(&doc), why)),
                        };
                        match parse(&doc) {
                            Some(g) => same(&g, &want, &doc)?,
                            None => return Err(format!("{} is rejected", show(&doc))),
                        }
                    }
                }
            }
            Ok(())
        },
    }, Phase {
        name: "at the limits",
        count: |_| 6,
        run: |c, i| {
            let (doc, _) = at_limit(2 * i);
            c.key(&i);
            c.nontrivial(true);
            c.label("at a limit");
            c.show(|| show(&doc));
            ensure!(parse(&doc).is_some(), "{}, which is within the limits, is rejected", show(&doc));
            Ok(())
        },
    }, Phase {
        name: "large documents",
        count: |t| big_count() * if t { 12 } else { 1 },
        run: |c, i| {
            let (l, m, want) = big(&mut c.s, i % big_count());
            let mut doc = vec![];
            let shuffle = c.s.bool();
            write(&mut c.s, &m.val(), shuffle, &mut doc);
            c.key(&doc);
            c.nontrivial(true);
            c.label(l);
            c.show(|| show(&doc));
            let got = match parse(&doc) {
                Some(g) => g,
                None => return Err(format!("{} is rejected", show(&doc))),
            };
            same(&got, &want, &doc)?;
            ensure_eq!(got.announce_url, want.announce_url, "tracker of {}", show(&doc));
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- T06 ------------------------------------------------------------------------------------------------------------

fn wrong_kind(s: &mut Src) -> Val {
    match s.usize(8) {
        0 => Val::Int(s.int()),
        1 => Val::Bytes(vec![]),
        2 => Val::Bytes(vec![0xff, 0xfe]),
        3 => Val::List(vec![]),
        4 => Val::Dict(Dict::new()),
        5 => Val::str("5"),
        6 => Val::List(vec![Val::Int(1)]),
        _ => model::val(s, 1),
    }
}
fn bad_utf8(s: &mut Src, v: &mut Val) {
    if let Val::Bytes(b) = v {
        let i = s.usize(b.len() + 1);
        b.insert(i, *s.pick(&[0x80, 0xff, 0xc3, 0xf5]));
    }
}
/// An entry of the list of files, in a finished document, replaced or preceded by another value.
fn break_entry(s: &mut Src, doc: &mut Val) -> &'static str {
    if let Val::Dict(top) = doc {
        if let Some(Val::Dict(info)) = top.get_mut("info") {
            if let Some(Val::List(l)) = info.get_mut("files") {
                if !l.is_empty() {
                    let k = if s.chance(1, 3) { l.len() - 1 } else { s.usize(l.len()) };
                    let v = wrong_kind(s);
                    if s.bool() {
                        l[k] = v
                    } else {
                        l.insert(k, v)
                    }
                    return "an entry of the files replaced or inserted";
                }
            }
        }
    }
    "no files to replace"
}
/// A field taken from where it belongs and put under another name, or into another dictionary.
fn misname(s: &mut Src, doc: &mut Val) {
    let Val::Dict(top) = doc else { return };
    let k = *s.pick(&["announce", "info", "name", "piece length", "pieces", "length", "files", "path", "file length"]);
    let alias = match k {
        "announce" => *s.pick(&["announce-list", "url-list", "announce.utf-8", "Announce", "tracker", "announce "]),
        "name" => *s.pick(&["name.utf-8", "Name", "title", "name "]),
        "path" => *s.pick(&["path.utf-8", "Path", "name", "paths"]),
        "piece length" => *s.pick(&["piece-length", "piece_length", "piecelength", "piece size", "Piece Length"]),
        "pieces" => *s.pick(&["piece", "pieces root", "hashes", "Pieces"]),
        "length" | "file length" => *s.pick(&["size", "Length", "lengths", "len"]),
        "files" => *s.pick(&["file", "Files", "file tree"]),
        _ => *s.pick(&["Info", "metainfo", "info "]),
    };
    let to_list = s.bool();
    let other = |v: Val| if k == "announce" && to_list { Val::List(vec![Val::List(vec![v])]) } else { v };
    match k {
        "announce" | "info" => {
            let Some(v) = top.remove(k) else { return };
            match (s.usize(4), k) {
                (0, "announce") => {
                    if let Some(Val::Dict(info)) = top.get_mut("info") {
                        info.insert(k.into(), v);
                    }
                }
                (0, _) => {
                    // its fields at the top
                    if let Val::Dict(info) = v {
                        top.extend(info);
                    }
                }
                _ => {
                    top.insert(alias.into(), other(v));
                }
            }
        }
        "path" | "file length" => {
            let k = if k == "path" { k } else { "length" };
            let Some(Val::Dict(info)) = top.get_mut("info") else { return };
            let Some(Val::List(files)) = info.get_mut("files") else { return };
            if files.is_empty() {
                return;
            }
            let i = s.usize(files.len());
            if let Val::Dict(f) = &mut files[i] {
                if let Some(v) = f.remove(k) {
                    f.insert(alias.into(), v);
                }
            }
        }
        _ => {
            let Some(Val::Dict(info)) = top.get_mut("info") else { return };
            let Some(v) = info.remove(k) else { return };
            if s.chance(1, 4) {
                top.insert(k.into(), v);
            } else {
                info.insert(alias.into(), v);
            }
        }
    }
}
/// One fault put into a well-formed document.
fn mutate(s: &mut Src, m: &mut Made) -> &'static str {
    let file = |s: &mut Src, m: &Made| m.files.as_ref().map(|f| s.usize(f.len()));
    match s.usize(12) {
        0 => {
            let k = *s.pick(&["name", "piece length", "pieces", "length"]);
            m.info.remove(k);
            "a field of info removed"
        }
        1 => {
            m.top.remove("announce");
            "announce removed"
        }
        2 => {
            let k = *s.pick(&["name", "piece length", "pieces", "length"]);
            if m.info.contains_key(k) {
                let v = wrong_kind(s);
                m.info.insert(k.into(), v);
            }
            "a field of info replaced"
        }
        3 => {
            let v = if s.bool() { wrong_kind(s) } else { Val::str(*s.pick(&["", "no url", "//host/path", "http://", "tracker.example", "/announce", "http://[", "http://a:99999/", "1http://a/", ":", "http:", "://a"])) };
            m.top.insert("announce".into(), v);
            "announce replaced"
        }
        4 => {
            let k = if s.bool() { s.usize(40) } else { *s.pick(&[19usize, 1, 21, 39, 0, 20, 10]) };
            let mut b = s.bytes(k);
            if let Some(Val::Bytes(p)) = m.info.get("pieces") {
                b.extend(p);
            }
            m.info.insert("pieces".into(), Val::Bytes(b));
            "piece string lengthened"
        }
        5 => {
            let v = *s.pick(&[0, -1, -16384, i64::MIN, i64::MIN + 1, 1, i64::MAX]);
            m.info.insert("piece length".into(), Val::Int(v));
            "piece length replaced"
        }
        6 => {
            let v = Val::Int(*s.pick(&[-1, i64::MIN, -2, -16384, 0, i64::MAX]));
            match file(s, m) {
                Some(i) => m.files.as_mut().unwrap()[i].insert("length".into(), v),
                None => m.info.insert("length".into(), v),
            };
            "file size replaced"
        }
        7 => {
            // both forms
            if m.files.is_some() {
                let v = if s.bool() { Val::Int(s.below(9) as i64) } else { wrong_kind(s) };
                m.info.insert("length".into(), v);
            } else {
                let v = if s.bool() { Val::List(vec![]) } else { wrong_kind(s) };
                m.info.insert("files".into(), v);
            }
            "both forms"
        }
        8 => {
            if m.files.take().is_some() {
                if s.bool() {
                    let v = wrong_kind(s);
                    m.info.insert("files".into(), v);
                }
            } else {
                m.info.remove("length");
            }
            "neither form, or files replaced"
        }
        9 => {
            if let Some(i) = file(s, m) {
                let f = &mut m.files.as_mut().unwrap()[i];
                let k = *s.pick(&["length", "path"]);
                if s.bool() {
                    f.remove(k);
                } else {
                    let v = wrong_kind(s);
                    f.insert(k.into(), v);
                }
            }
            "a field of a file removed or replaced"
        }
        10 => {
            match (s.usize(3), file(s, m)) {
                (0, Some(i)) => {
                    if let Some(Val::List(l)) = m.files.as_mut().unwrap()[i].get_mut("path") {
                        if l.is_empty() {
                            return "text that is not UTF-8";
                        }
                        let i = s.usize(l.len());
                        if s.bool() {
                            bad_utf8(s, &mut l[i])
                        } else {
                            l[i] = wrong_kind(s)
                        }
                    }
                }
                (1, _) => {
                    if let Some(v) = m.info.get_mut("name") {
                        bad_utf8(s, v)
                    }
                }
                _ => {
                    if let Some(v) = m.top.get_mut("announce") {
                        bad_utf8(s, v)
                    }
                }
            }
            "text that is not UTF-8"
        }
        _ => {
            let n = 60 + s.usize(120);
            let v = (0..n).fold(Val::Int(1), |v, _| Val::List(vec![v]));
            match (s.usize(3), file(s, m)) {
                (0, Some(i)) => m.files.as_mut().unwrap()[i].insert("z".into(), v),
                (1, _) => m.info.insert("z".into(), v),
                _ => m.top.insert("z".into(), v),
            };
            "nested about the limit"
        }
    }
}
/// What is read depends on the value the document denotes, not on how it is written, nor on entries nobody asks for.
fn same_value(s: &mut Src, doc: &[u8]) -> R {
    let (mut v, tokens) = match model::decode_tokens(doc) {
        Some(x) => x,
        None => return Ok(()),
    };
    let l = TorrentLimits::default();
    if tokens.iter().any(|t| t.open + 2 > l.max_decode_depth) || tokens.len() + 10 > l.max_decode_tokens {
        return Ok(());
    }
    let (got, plain) = (parse(doc), parse(&v.to_vec()));
    ensure!(got == plain, "{} is read as {:?}, but {:?} when written plainly", show(doc), got, plain);
    if let Val::Dict(d) = &mut v {
        if s.chance(1, 4) {
            if let Some(Val::Dict(i)) = d.get_mut("info") {
                i.insert("zz-unasked".into(), Val::Int(s.int()));
            }
        } else {
            d.insert("zz-unasked".into(), Val::Int(s.int()));
        }
        let more = v.to_vec();
        let with = parse(&more);
        ensure!(got == with, "{} is read as {:?}, but {} as {:?}", show(doc), got, show(&more), with);
    }
    Ok(())
}
fn t06(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        let doc = valid(&mut c.s);
        return turns::twins(c, doc, |d| in_turn(d, false));
    }
    let kind = c.s.weighted(&[6, 2, 2, 1]);
    let mut doc = vec![];
    match kind {
        0 | 1 => {
            let (mut m, _) = metainfo(&mut c.s, 20);
            let l = mutate(&mut c.s, &mut m);
            c.label(l);
            if c.s.chance(1, 6) {
                mutate(&mut c.s, &mut m);
            }
            let v = match c.s.usize(30) {
                7 | 8 | 9 => {
                    let mut v = if c.s.chance(5, 6) { metainfo(&mut c.s, 8).0.val() } else { m.val() };
                    misname(&mut c.s, &mut v);
                    c.label("a field under another name");
                    v
                }
                4 | 5 | 6 => {
                    let mut v = if c.s.bool() { metainfo(&mut c.s, 8).0.val() } else { m.val() };
                    model::misplace(&mut c.s, &mut v);
                    c.label("something in another form");
                    v
                }
                2 | 3 => {
                    let mut v = m.val();
                    let l = break_entry(&mut c.s, &mut v);
                    c.label(l);
                    v
                }
                0 => Val::List(vec![m.val()]),
                1 => {
                    let mut d = m.top.clone();
                    if c.s.bool() {
                        d.insert("info".into(), wrong_kind(&mut c.s));
                    }
                    Val::Dict(d)
                }
                _ => m.val(),
            };
            if kind == 1 {
                model::spell(&mut c.s, &v, true, &mut doc);
            } else {
                let sh = c.s.bool();
                write(&mut c.s, &v, sh, &mut doc);
            }
        }
        2 => {
            let (m, _) = metainfo(&mut c.s, 20);
            write(&mut c.s, &m.val(), false, &mut doc);
            model::damage(&mut c.s, &mut doc);
            c.label("damaged");
        }
        _ => {
            doc = model::document(&mut c.s).0;
            c.label("any document");
        }
    }
    same_value(&mut c.s, &doc)?;
    c.key(&doc);
    c.show(|| show(&doc));
    let (why, ok) = t06_one(&doc)?;
    c.nontrivial(doc.len() > 60);
    c.label(match (why, ok) {
        (Some(w), _) => w,
        (None, true) => "accepted and read right",
        (None, false) => "rejected, left open",
    });
    Ok(())
}
/// Nesting of very deep documents must be rejected on an ordinary stack, wherever it is.
fn t06_deep(c: &mut Ctx, i: u64) -> R {
    let n = [101, 1000, 20_000, 300_000][(i % 4) as usize];
    let dict = i / 4 % 2 == 1;
    let open: &[u8] = if dict { b"d1:k" } else { b"l" };
    let mut deep = open.repeat(n);
    if dict {
        deep.extend_from_slice(b"i1e");
    }
    if i / 8 % 2 == 0 {
        deep.extend(std::iter::repeat(b'e').take(n));
    }
    let doc = match i / 16 {
        0 => deep,
        1 => [b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n12:piece lengthi16384e6:pieces0:1:z", &deep[..], b"ee"].concat(),
        _ => [b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n12:piece lengthi16384e6:pieces0:e1:z", &deep[..], b"e"].concat(),
    };
    c.key(&i);
    c.nontrivial(true);
    c.label("very deep");
    c.show(|| format!("{} deep: {}", n, show(&doc)));
    let th = std::thread::Builder::new().stack_size(2 << 20).spawn(move || parse(&doc).is_some());
    let got = th.map_err(|e| e.to_string())?.join().map_err(|_| "panic on a deep document".to_string())?;
    ensure!(!got, "a document nested {} deep is accepted", n);
    Ok(())
}
const SINGLE_TEMPLATE: &[u8] = b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n12:piece lengthi16384e6:pieces20:aaaaaaaaaaaaaaaaaaaaee";
const MULTI_TEMPLATE: &[u8] = b"d8:announce18:http://t.example/a4:infod5:filesld6:lengthi5e4:pathl1:a1:beee4:name1:n12:piece lengthi16384e6:pieces20:aaaaaaaaaaaaaaaaaaaaee";
pub const T06: Prop = Prop {
    id: "T06",
    rule: "well-formed documents with one or two faults (fields removed, replaced by other kinds and out-of-range values, both or neither form, bad URLs, bad UTF-8, nesting about the limit), damaged and arbitrary documents; all names and paths of up to six characters over dot, slash, backslash, null and a letter; every cut and every one-byte change of two small documents; every length of the piece string to 10000 and around powers of two; deep and long documents around and far beyond the limits; one fault in documents with up to 150000 files or 262145 path segments, pieces, keys or characters. Non-trivial: over 60 bytes long.",
    assumptions: &["of invalid tracker URLs only texts without a scheme and a list of hopeless ones must be rejected", "documents that break no rule may still be rejected here (T05 says which must be accepted)"],
    quick: 150_000,
    thorough: 5_000_000,
    case: t06,
    phases: &[
        Phase {
            name: "short names and paths",
            count: |t| if t { 2 * 55_987 } else { 2 * 9_331 },
            run: |c, i| {
                let text = |mut k: u64| {
                    let (mut n, mut block) = (0, 1);
                    while k >= block {
                        k -= block;
                        block *= 6;
                        n += 1;
                    }
                    let mut w = String::new();
                    for _ in 0..n {
                        w.push(b"./a\0\\,"[(k % 6) as usize] as char);
                        k /= 6;
                    }
                    w
                };
                let t = text(i / 2);
                let m = if i % 2 == 0 {
                    let mut m = simple(None);
                    m.info.insert("name".into(), Val::str(&t));
                    m
                } else {
                    // a comma parts the segments
                    let segs: Vec<&str> = t.split(',').collect();
                    simple(Some(&[(&["ok"], 3), (&segs, 4)]))
                };
                let doc = m.val().to_vec();
                c.key(&doc);
                c.nontrivial(true);
                c.show(|| show(&doc));
                let (why, ok) = t06_one(&doc)?;
                c.label(why.unwrap_or(if ok { "accepted" } else { "rejected, left open" }));
                Ok(())
            },
        },
        Phase {
            name: "cuts and one-byte changes",
            count: |_| ((SINGLE_TEMPLATE.len() + MULTI_TEMPLATE.len()) * 256) as u64,
            run: |c, i| {
                let (mut at, b) = ((i / 256) as usize, i as u8);
                let mut doc = SINGLE_TEMPLATE.to_vec();
                if at >= doc.len() {
                    at -= doc.len();
                    doc = MULTI_TEMPLATE.to_vec();
                }
                if b == doc[at] {
                    doc.truncate(at);
                } else {
                    doc[at] = b;
                }
                c.key(&doc);
                c.nontrivial(true);
                c.show(|| show(&doc));
                let (why, ok) = t06_one(&doc)?;
                c.label(if why.is_some() { "must be rejected" } else if ok { "accepted and read right" } else { "rejected, left open" });
                Ok(())
            },
        },
        Phase { name: "very deep", count: |_| 48, run: t06_deep },
        Phase {
            name: "every length of the piece string",
            count: |t| 2 * (if t { 200_000 } else { 10_000 } + 3 * 23),
            run: |c, i| {
                let k = i as usize / 2;
                let n = if k < 3 * 23 { (1usize << (k / 3)) + k % 3 - 1 } else { k - 3 * 23 };
                let files: &[(&[&str], i64)] = &[(&["a", "b"], 3)];
                let mut m = simple(if i % 2 == 0 { None } else { Some(files) });
                m.info.insert("pieces".into(), Val::Bytes((0..n).map(|k| (k * 7) as u8).collect()));
                let doc = m.val().to_vec();
                c.key(&i);
                c.nontrivial(true);
                c.show(|| format!("a piece string of {} bytes", n));
                let (why, ok) = t06_one(&doc)?;
                c.label(if why.is_some() { "must be rejected" } else if ok { "accepted and read right" } else { "rejected, left open" });
                Ok(())
            },
        },
        Phase {
            name: "a fault in a large document",
            count: |t| big_count() * if t { 24 } else { 2 },
            run: |c, i| {
                let (l, mut m, _) = big(&mut c.s, i % big_count());
                let mut how = "";
                match m.files.as_mut() {
                    Some(f) if !f.is_empty() && c.s.chance(2, 3) => {
                        let k = match c.s.usize(3) {
                            0 => f.len() - 1,
                            _ => c.s.usize(f.len()),
                        };
                        how = match c.s.usize(5) {
                            0 => {
                                f[k].insert("length".into(), Val::Int(-1));
                                "a negative length"
                            }
                            1 => {
                                let key = *c.s.pick(&["length", "path"]);
                                f[k].remove(key);
                                "a field of a file removed"
                            }
                            2 => {
                                let key = *c.s.pick(&["length", "path"]);
                                f[k].insert(key.into(), Val::str("1"));
                                "a field of a file replaced"
                            }
                            _ => {
                                if let Some(Val::List(p)) = f[k].get_mut("path") {
                                    let j = c.s.usize(p.len());
                                    if c.s.bool() {
                                        bad_utf8(&mut c.s, &mut p[j])
                                    } else {
                                        p[j] = Val::Int(3)
                                    }
                                }
                                "a bad segment"
                            }
                        };
                    }
                    _ if c.s.chance(1, 3) => {
                        if let Some(Val::Bytes(p)) = m.info.get_mut("pieces") {
                            let n = p.len() + 1 + c.s.usize(39);
                            p.resize(n, 9);
                        }
                        how = "piece string lengthened";
                    }
                    _ => {
                        for _ in 0..3 {
                            how = mutate(&mut c.s, &mut m);
                        }
                    }
                }
                let mut v = m.val();
                if m.files.is_some() && c.s.chance(1, 3) {
                    let (_, m, _) = big(&mut c.s, i % (model::sizes().len() as u64 * 2));
                    v = m.val();
                    how = break_entry(&mut c.s, &mut v);
                }
                let doc = v.to_vec();
                c.key(&doc);
                c.nontrivial(true);
                c.label(l);
                c.label(how);
                c.show(|| show(&doc));
                let (why, _) = t06_one(&doc)?;
                c.label_if(why.is_some(), "must be rejected");
                Ok(())
            },
        },
        Phase {
            name: "beyond the limits",
            count: |_| 6,
            run: |c, i| {
                let (doc, _) = at_limit(2 * i + 1);
                c.key(&i);
                c.nontrivial(true);
                c.label("just beyond a limit");
                c.show(|| show(&doc));
                ensure!(parse(&doc).is_none(), "{}, which exceeds a limit, is accepted", show(&doc));
                Ok(())
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- T07 ------------------------------------------------------------------------------------------------------------

fn path_text(s: &mut Src) -> String {
    match s.weighted(&[4, 6, 4]) {
        0 => segment(s),
        1 => s.pick(&["..", ".", "", "/", "/etc", "../x", "a/../..", "a/..", "./..", "//", "/..", "a/b", "a/", "./a", "..//", "\0", "a\0/../b", "../", ".../..", "a//b", " ..", ".. ", "/a", "./", ".//.", "\\..\\", "a/../b", "..\u{200b}"]).to_string(),
        _ => {
            let n = s.usize(8);
            (0..n).map(|_| *s.pick(&['.', '.', '/', 'a', '\\', '\0'])).collect()
        }
    }
}
fn t07_one(doc: &[u8]) -> Result<(Option<&'static str>, bool), String> {
    let got = parse(doc);
    let accepted = got.is_some();
    if let Some(g) = &got {
        let dir = Path::new("/downloads/here");
        for (p, _) in &g.files {
            ensure!(contained(p), "{} is accepted with the path {:?}", show(doc), p);
            ensure!(dir.join(p).starts_with(dir) && dir.join(p) != dir, "{} is accepted with the path {:?}, which leads to {:?}", show(doc), p, dir.join(p));
        }
        let n = g.name.clone().unwrap_or_default();
        ensure!(contained(Path::new(&n)), "{} is accepted with the name {:?}", show(doc), n);
    }
    let why = match judge(doc) {
        Reject(why) => {
            ensure!(!accepted, "{} is accepted ({})", show(doc), why);
            Some(why)
        }
        Reads(_) => None,
    };
    Ok((why, accepted))
}
fn t07(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        let (mut m, _) = metainfo(&mut c.s, 6);
        if c.s.bool() {
            let t = path_text(&mut c.s);
            m.info.insert("name".into(), Val::str(&t));
        }
        return turns::twins(c, m.val().to_vec(), |d| t07_one(d).map(|_| ()));
    }
    let (mut m, _) = metainfo(&mut c.s, 10);
    let mut doc = vec![];
    if c.s.chance(1, 3) {
        let t = path_text(&mut c.s);
        m.info.insert("name".into(), Val::str(&t));
    }
    if let Some(f) = m.files.as_mut() {
        let i = c.s.usize(f.len());
        let segs = c.s.list(6, 3, path_text);
        f[i].insert("path".into(), Val::List(segs.iter().map(|t| Val::str(t)).collect()));
    }
    let v = m.val();
    write(&mut c.s, &v, false, &mut doc);
    c.key(&doc);
    c.show(|| show(&doc));
    let (why, ok) = t07_one(&doc)?;
    c.nontrivial(true);
    c.label(match (why, ok) {
        (Some(w), _) => w,
        (None, true) => "accepted and contained",
        (None, false) => "rejected, left open",
    });
    Ok(())
}
pub const T07: Prop = Prop {
    id: "T07",
    rule: "single- and multi-file documents whose names and path segments are plain names, parent steps, absolute paths, empty, dots, embedded separators and nulls, random strings of such characters; all names up to six and all paths of up to three segments of up to two characters over dot, slash and a letter; one such text in documents with up to 150000 files or 262145 segments or characters; every Unicode character in names and next to parent steps. Non-trivial: every case.",
    assumptions: &["paths are judged lexically, as on Unix"],
    quick: 150_000,
    thorough: 5_000_000,
    case: t07,
    phases: &[Phase {
        name: "every character next to a parent step",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            for x in model::chars_block(i) {
                let t = [
                    x.to_string(), format!("..{}", x), format!("{}..", x), format!(".{}.", x), format!("..{}a", x), format!("a{}..", x), format!("{}etc", x), format!("..{}..", x),
                    format!("{}/..", x), format!("../{}", x), format!("/{}", x), format!("{}/../..", x), format!("./{}", x), format!("../{}/..", x),
                ];
                for (k, t) in t.iter().enumerate() {
                    // the higher planes share the forms among neighbours
                    if x as u32 >= 0x1_0000 && k as u32 % 7 != x as u32 % 7 {
                        continue;
                    }
                    let mut one = simple(None);
                    one.info.insert("name".into(), Val::str(t));
                    t07_one(&one.val().to_vec())?;
                    t07_one(&simple(Some(&[(&["a"], 3), (&[t], 4), (&["a", t], 5)])).val().to_vec())?;
                }
            }
            Ok(())
        },
    }, Phase {
        name: "short names and paths",
        count: |_| 1093 + 13 * 14 * 14,
        run: |c, i| {
            let word = |mut k: u64| {
                let (mut n, mut block) = (0, 1);
                while k >= block {
                    k -= block;
                    block *= 3;
                    n += 1;
                }
                let mut w = String::new();
                for _ in 0..n {
                    w.push(b"./a"[(k % 3) as usize] as char);
                    k /= 3;
                }
                w
            };
            let m = if i < 1093 {
                let mut m = simple(None);
                m.info.insert("name".into(), Val::str(&word(i)));
                m
            } else {
                let k = i - 1093;
                // the second and third segment may be absent
                let mut segs = vec![word(k % 13)];
                for j in [k / 13 % 14, k / 13 / 14 % 14] {
                    if j > 0 {
                        segs.push(word(j - 1));
                    }
                }
                let mut m = simple(Some(&[(&["ok"], 3), (&["a"], 4)]));
                m.files.as_mut().unwrap()[1].insert("path".into(), Val::List(segs.iter().map(|t| Val::str(t)).collect()));
                m
            };
            let doc = m.val().to_vec();
            c.key(&doc);
            c.nontrivial(true);
            c.show(|| show(&doc));
            let (why, ok) = t07_one(&doc)?;
            c.label(if why.is_some() { "must be rejected" } else if ok { "accepted and contained" } else { "rejected, left open" });
            Ok(())
        },
    }, Phase {
        name: "one place in a large document",
        count: |t| (model::sizes().len() * 4) as u64 * if t { 48 } else { 4 },
        run: |c, i| {
            let sizes = model::sizes().len() as u64;
            let kind = i / sizes % 4;
            let (l, mut m, _) = big(&mut c.s, i % sizes + kind * sizes);
            let bad = c.s.pick(&["..", "/", "/etc", "../x", "a/../..", "a/../../../x", "..//", "/..", ".", ""]).to_string();
            match kind {
                0 | 1 => {
                    let f = m.files.as_mut().unwrap();
                    let k = if kind == 0 { c.s.usize(f.len()) } else { (0..f.len()).max_by_key(|&k| match &f[k]["path"] { Val::List(p) => p.len(), _ => 0 }).unwrap() };
                    if let Some(Val::List(p)) = f[k].get_mut("path") {
                        let j = match c.s.usize(3) {
                            0 => p.len() - 1,
                            _ => c.s.usize(p.len()),
                        };
                        p[j] = Val::str(&bad);
                    }
                }
                k => {
                    // a long text that ends, or begins, with the step outside
                    let before = c.s.bool();
                    let join = |t: &mut Val| {
                        if let Val::Bytes(b) = t {
                            *b = if before { [bad.as_bytes(), b"/", &b[..]].concat() } else { [&b[..], b"/", bad.as_bytes()].concat() };
                        }
                    };
                    if k == 2 {
                        join(m.info.get_mut("name").unwrap())
                    } else {
                        for f in m.files.as_mut().unwrap() {
                            if let Some(Val::List(p)) = f.get_mut("path") {
                                if p.len() == 3 {
                                    join(&mut p[1])
                                }
                            }
                        }
                    }
                }
            }
            let doc = m.val().to_vec();
            c.key(&doc);
            c.nontrivial(true);
            c.label(l);
            c.show(|| show(&doc));
            let (why, ok) = t07_one(&doc)?;
            c.label(if why.is_some() { "must be rejected" } else if ok { "accepted and contained" } else { "rejected, left open" });
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- T09 ------------------------------------------------------------------------------------------------------------

const PER_BYTE: usize = 400;
const BASE: usize = 64 << 10;

const PARTS: &[&[u8]] = &[b"le", b"de", b"0:", b"i0e", b"l", b"d0:", b"d0:0:e", b"d0:lee", b"d0:d0:0:ee", b"d6:lengthi0e4:pathl1:aee", b"d6:lengthi0e4:pathl1:a1:bee", b"d6:lengthi9223372036854775807e4:pathl1:aee", b"0:i0e"];
const PLACES: &[(&[u8], &[u8])] = &[
                (b"d8:announce10:http://a/b4:infod5:filesl", b"e4:name1:n12:piece lengthi1e6:pieces0:ee"),
                (b"d8:announce10:http://a/b4:infod5:filesld6:lengthi0e4:pathl", b"eee4:name1:n12:piece lengthi1e6:pieces0:ee"),
                (b"d8:announce10:http://a/b4:infod6:lengthi0e4:name1:n12:piece lengthi1e6:pieces0:1:zl", b"eee"),
                (b"d8:announce10:http://a/b4:infod6:lengthi0e4:name1:n12:piece lengthi1e6:pieces0:1:zd", b"eee"),
                (b"l", b"e"),
            ];
fn t09_one(doc: &[u8]) -> Result<(usize, bool), String> {
    let (r, peak) = alloc::peak(|| parse(doc).is_some());
    ensure!(peak <= BASE + PER_BYTE * doc.len(), "parsing {} bytes, {}, allocates {} bytes at its peak", doc.len(), show(doc), peak);
    Ok((peak, r))
}
fn t09(c: &mut Ctx) -> R {
    let kind = c.s.weighted(&[3, 3, 3, 2]);
    let mut doc = vec![];
    match kind {
        0 => {
            let (mut m, _) = metainfo(&mut c.s, 100);
            if c.s.bool() {
                mutate(&mut c.s, &mut m);
            }
            write(&mut c.s, &m.val(), false, &mut doc);
        }
        1 => {
            // numbers that claim far more than there is
            let (mut m, _) = metainfo(&mut c.s, 20);
            for _ in 0..c.s.range(1, 3) {
                let v = Val::Int(*c.s.pick(&[i64::MAX, i64::MAX - 1, 1 << 40, 1 << 32, (1 << 31) - 1, 1 << 62, 1, 6_000_001]));
                match (c.s.usize(3), m.files.as_mut()) {
                    (0, Some(f)) => {
                        let k = c.s.usize(f.len());
                        f[k].insert("length".into(), v);
                    }
                    (0, None) => {
                        m.info.insert("length".into(), v);
                    }
                    _ => {
                        m.info.insert("piece length".into(), v);
                    }
                }
            }
            write(&mut c.s, &m.val(), false, &mut doc);
        }
        2 => {
            let (m, _) = metainfo(&mut c.s, 20);
            write(&mut c.s, &m.val(), false, &mut doc);
            // a string prefix that claims more, or other damage
            let colons: Vec<usize> = (1..doc.len()).filter(|&i| doc[i] == b':' && doc[i - 1].is_ascii_digit()).collect();
            if c.s.bool() && !colons.is_empty() {
                let at = *c.s.pick(&colons);
                let digits = c.s.range(1, 19);
                doc.splice(at..at, std::iter::repeat(b'0' + c.s.usize(10) as u8).take(digits));
            } else {
                model::damage(&mut c.s, &mut doc);
            }
        }
        _ => {
            // many of the smallest things
            let n = c.s.size(4000);
            let unit = *c.s.pick(PARTS);
            let (a, b) = *c.s.pick(PLACES);
            doc = [a, &unit.repeat(n), b].concat();
        }
    }
    c.label(["well-formed, or with a fault", "huge numbers", "damaged", "many small parts"][kind]);
    c.key(&doc);
    c.nontrivial(doc.len() > 60);
    c.show(|| show(&doc));
    let (_, ok) = t09_one(&doc)?;
    c.label(if ok { "accepted" } else { "rejected" });
    Ok(())
}
pub const T09: Prop = Prop {
    id: "T09",
    rule: "torrent files, well-formed and with faults, huge sizes and piece lengths, string prefixes claiming far more than there is, thousands of the smallest parts in every place, each parsed under a counting allocator; the large documents of T05; 13 smallest parts repeated up to 262145, some to 2^24 times in five places. Non-trivial: over 60 bytes long.",
    assumptions: &["the bound is 64 KiB + 400 bytes per byte, about four times what the densest document needs at the pinned commit"],
    quick: 100_000,
    thorough: 4_000_000,
    case: t09,
    phases: &[Phase {
        name: "large documents",
        count: |t| big_count() * if t { 6 } else { 1 },
        run: |c, i| {
            let (l, m, _) = big(&mut c.s, i % big_count());
            let doc = m.val().to_vec();
            c.key(&doc);
            c.nontrivial(true);
            c.label(l);
            c.show(|| show(&doc));
            t09_one(&doc).map(|_| ())
        },
    }, Phase {
        name: "smallest parts repeated",
        count: |_| (PARTS.len() * PLACES.len() * model::sizes().len()) as u64,
        run: |c, i| {
            let n = model::sizes()[i as usize % model::sizes().len()];
            let unit = PARTS[i as usize / model::sizes().len() % PARTS.len()];
            let (a, b) = PLACES[i as usize / model::sizes().len() / PARTS.len()];
            let doc = [a, &unit.repeat(n), b].concat();
            c.key(&i);
            c.nontrivial(true);
            c.show(|| show(&doc));
            let (_, ok) = t09_one(&doc)?;
            c.label(if ok { "accepted" } else { "rejected" });
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};
