//! T11 and S04: links, documents and texts are read in time in keeping with their length.
use engine::model::{self, Val};
use engine::pace::within;
use engine::{show, Ctx, Prop, R};
use std::collections::BTreeMap;
use std::hint::black_box;
use torrent_rs::verif_hooks::str_utl;

/// Over ten times what is needed.
fn limit(n: usize) -> f64 {
    0.1 + n as f64 * 0.7e-6
}

fn link(c: &mut Ctx) -> (String, &'static str) {
    let most = *c.s.pick(&[300_000, 600_000, 1_200_000]);
    let id = model::hex(&c.s.id());
    let topic = format!("xt=urn:btih:{}", id);
    let mut t = String::from("magnet:?");
    let last = c.s.bool();
    if !last {
        t.push_str(&topic);
        t.push('&');
    }
    let kind = c.s.usize(9);
    let salt = c.s.usize(100_000);
    let one = |i: usize| -> String {
        match kind {
            0 => format!("tr=http://{}.example/{}&", salt, i),
            1 => format!("ws=http://{}.example/{}&", salt, i),
            2 => format!("x.pe=10.{}.{}.1:{}&", i / 256 % 256, i % 256, 1 + i % 65535),
            3 => format!("dht=host{}:{}&", i, 1 + i % 65535),
            4 => format!("dn=name{}&", i),
            5 => format!("so={},{}-{}&", i % 100, i % 50, i % 50 + 3),
            6 => format!("k{}=v&", i),
            7 => format!("{}&", topic),
            _ => ["tr=&", "ws=a&", "=&", "dn=%41+&"][salt % 4].to_string(),
        }
    };
    let shape = c.s.usize(3);
    let name;
    if shape < 2 {
        name = ["many trackers", "many web seeds", "many peers", "many routers", "many names", "many selections", "many unknown parameters", "many topics", "many short parameters"][kind];
        let mut i = 0;
        while t.len() < most {
            t.push_str(&one(i));
            i += 1;
        }
    } else {
        name = "one long parameter";
        t.push_str(["tr=", "ws=", "dn=", "k=", "so=", "so=", "dht=", "x.pe=", "xt=urn:btih:"][kind]);
        let unit = match kind {
            4 => ["1,", ",", "0-9,", "-,", "10001,", "9-1,"][salt % 6].to_string(),
            5 => String::from(","),
            6 | 7 => ["a", ":", "a:", "1.", "[", "1"][salt % 6].to_string(),
            _ => ["a", "%41", "+", "%c3%a9", "a%20b", "%ff"][salt % 6].to_string(),
        };
        while t.len() < most {
            t.push_str(&unit);
        }
        t.push('&');
    }
    if last {
        t.push_str(&topic);
    }
    (t, name)
}
fn bytes(s: &str) -> Val {
    Val::Bytes(s.as_bytes().to_vec())
}
fn document(c: &mut Ctx) -> (Vec<u8>, &'static str) {
    let n = *c.s.pick(&[10_000usize, 25_000, 40_000]);
    let kind = c.s.usize(5);
    let salt = c.s.usize(100);
    let mut info = BTreeMap::new();
    info.insert("name".to_string(), bytes("n"));
    info.insert("piece length".to_string(), Val::Int(16384));
    info.insert("pieces".to_string(), Val::Bytes(vec![salt as u8; 20 * if kind == 0 { n * 3 } else { 1 }]));
    let file = |path: Vec<Val>| {
        let mut f = BTreeMap::new();
        f.insert("length".to_string(), Val::Int(1));
        f.insert("path".to_string(), Val::List(path));
        Val::Dict(f)
    };
    match kind {
        0 => {
            info.insert("length".to_string(), Val::Int(1));
        }
        1 => {
            let same = salt % 3 == 0;
            let d = format!("dir{}", salt);
            info.insert("files".to_string(), Val::List((0..n).map(|i| file(vec![bytes(&d), bytes(&if same { String::from("f") } else { format!("f{}", i) })])).collect()));
        }
        2 => {
            // one deep path
            let part = ["a", "ab", "a.b", "."][salt % 4];
            let mut v = vec![bytes("x")];
            v.extend((0..n / 20).map(|_| bytes(part)));
            info.insert("files".to_string(), Val::List(vec![file(v)]));
        }
        3 => {
            // long names
            let p = "p".repeat(1 + salt * 50);
            info.insert("files".to_string(), Val::List((0..400).map(|i| file(vec![bytes(&p), bytes(&format!("{}", i))])).collect()));
            info.insert("name".to_string(), bytes(&"m".repeat(n * 10)));
        }
        _ => {
            for i in 0..n {
                info.insert(format!("other{}", i), Val::Int(i as i64));
            }
            info.insert("length".to_string(), Val::Int(1));
        }
    }
    let mut d = BTreeMap::new();
    d.insert("announce".to_string(), bytes(&format!("http://h/{}", "a".repeat(if kind == 3 { n * 5 } else { 1 }))));
    d.insert("info".to_string(), Val::Dict(info));
    (Val::Dict(d).to_vec(), ["many pieces", "many files", "a path of many parts", "long names", "many unknown keys"][kind])
}
fn t11(c: &mut Ctx) -> R {
    if c.s.chance(1, 3) {
        let (d, name) = document(c);
        c.key(&d);
        c.label(name);
        c.nontrivial(true);
        c.show(|| format!("a document with {} ({} bytes)", name, d.len()));
        return within(&format!("parsing a document with {} ({} bytes)", name, d.len()), limit(d.len()), || drop(black_box(torrent_rs::verif_hooks::torrent::verif::parse(&d))));
    }
    let (t, name) = link(c);
    c.key(&t);
    c.label(name);
    c.nontrivial(true);
    c.show(|| format!("{} ({} bytes): {}", name, t.len(), show(t.as_bytes())));
    within(&format!("parsing a link with {} ({} bytes: {})", name, t.len(), show(&t.as_bytes()[..200])), limit(t.len()), || drop(black_box(crate::magnet::parse(&t))))
}
pub const T11: Prop = Prop {
    id: "T11",
    rule: "magnet links of 300 kB to 1.2 MB with thousands of trackers, web seeds, peers, routers, names, selections, unknown parameters or topics, or one long parameter; metainfo documents with many pieces, files, path parts or keys, or long names; each parsed under a limit of CPU time. All cases are non-trivial.",
    assumptions: &["0.1 s + 0.7 microseconds per byte, over ten times what is needed here; the least of four runs counts"],
    quick: 300,
    thorough: 20_000,
    case: t11,
    phases: &[],
    terminates: true,
    extra: None,
};

fn s04(c: &mut Ctx) -> R {
    let most = *c.s.pick(&[300_000, 700_000, 1_500_000]);
    let kind = c.s.usize(6);
    let unit: &[u8] = match kind {
        0 | 1 => *c.s.pick(&[&b"a"[..], b"%41", b"+", b"%c3%A9", b"ab+%00", b"%ff"]),
        2 => *c.s.pick(&[&b"A"[..], b"abcdefgh", b"=", b"1", b"7", b"A======="]),
        3 => *c.s.pick(&[&b" "[..], b"\t\r\n", b"a ", b"x"]),
        4 => *c.s.pick(&[&b","[..], b"a,", b"\",", b"abc,", b"\"a,b\",", b"\"", b"aaaa"]),
        _ => *c.s.pick(&[&b"0"[..], b"9", b"1"]),
    };
    let mut t = vec![];
    while t.len() < most {
        t.extend_from_slice(unit);
    }
    match c.s.usize(6) {
        0 => t.push(b'%'),
        1 => t.push(b' '),
        2 => t.insert(0, b' '),
        3 => t.push(b'x'),
        _ => {}
    }
    let name = ["unescaping", "unescaping to text", "base32", "trimming", "splitting", "reading a number"][kind];
    c.key(&t);
    c.label(name);
    c.nontrivial(true);
    c.show(|| format!("{} of {} bytes: {}", name, t.len(), show(&t)));
    within(&format!("{} of {} bytes ({})", name, t.len(), show(&t[..200])), limit(t.len()), || match kind {
        0 => drop(black_box(str_utl::unescape_bytes(&t).is_ok())),
        1 => drop(black_box(str_utl::unescape_string(&t).is_ok())),
        2 => drop(black_box(str_utl::base32_decode(&t))),
        3 => drop(black_box(str_utl::trim(&t).len())),
        4 => {
            let mut rest = &t[..];
            while !rest.is_empty() {
                let (a, b) = str_utl::split_string(rest, b',');
                black_box(a);
                if b.len() >= rest.len() {
                    break;
                }
                rest = b;
            }
        }
        _ => drop(black_box(str_utl::parse_int(&t).is_ok())),
    })
}
pub const S04: Prop = Prop {
    id: "S04",
    rule: "texts of 300 kB to 1.5 MB made of one short part again and again, some wrong at the very end or with a space at either end: unescaped, decoded from base32, trimmed, split to pieces, read as numbers, each under a limit of CPU time. All cases are non-trivial.",
    assumptions: &["0.1 s + 0.7 microseconds per byte, over ten times what is needed here; the least of four runs counts"],
    quick: 300,
    thorough: 20_000,
    case: s04,
    phases: &[],
    terminates: true,
    extra: None,
};
