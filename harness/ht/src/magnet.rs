use engine::model;
use engine::{alloc, ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};
use std::net::SocketAddr;
use torrent_rs::verif_hooks::download_priority::DownloadPriority;
use torrent_rs::verif_hooks::magnet_uri::parse_magnet_uri;
use torrent_rs::verif_hooks::params::TorrentParams;

pub fn parse(uri: &str) -> Result<TorrentParams, String> {
    uri.parse::<TorrentParams>().map_err(|e| format!("{:?}", e))
}
/// A link of the given parameters, each percent-encoded in its own way.
pub(crate) fn link(s: &mut Src, params: &[(String, Vec<u8>)]) -> String {
    let mut out = (*s.pick(&["magnet:?", "magnet:?", "magnet:?", "Magnet:?", "MAGNET:?"])).as_bytes().to_vec();
    for (i, (k, v)) in params.iter().enumerate() {
        if i > 0 {
            out.push(b'&');
        }
        if s.chance(1, 12) || !k.bytes().all(|c| c.is_ascii_alphanumeric() || b"._-".contains(&c)) {
            out.extend(model::percent(s, k.as_bytes(), false));
        } else {
            out.extend_from_slice(k.as_bytes());
        }
        out.push(b'=');
        out.extend(model::percent(s, v, true));
    }
    String::from_utf8(out).expect("ASCII")
}
/// Now and then a fragment, which is no part of the parameters.
fn fragment(c: &mut Ctx) -> String {
    if !c.s.chance(1, 14) {
        return String::new();
    }
    c.label("fragment");
    let id = c.s.id();
    let mut f = "#".to_string();
    for _ in 0..c.s.usize(4) {
        f += *c.s.pick(&["&", "?", "a", "#", "dn=x", "&tr=y", "&ws=z", "&so=3", "&x.pe=1.2.3.4:5", "&dht=h:1", "&x.pe=bad", "&dht=h:bad", "/", "%20", "%zz"]);
        if c.s.chance(1, 3) {
            f += &format!("&xt=urn:btih:{}", model::hex(&id));
        }
    }
    f
}
pub(crate) fn plain_hash(id: &[u8; 20]) -> (String, Vec<u8>) {
    ("xt".into(), format!("urn:btih:{}", model::hex(id)).into_bytes())
}
pub(crate) fn mixed_case(s: &mut Src, t: &str) -> String {
    let style = s.usize(3);
    t.chars()
        .map(|c| match style {
            0 => c.to_ascii_lowercase(),
            1 => c.to_ascii_uppercase(),
            _ => {
                if s.bool() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            }
        })
        .collect()
}
pub(crate) fn other_param(s: &mut Src) -> (String, Vec<u8>) {
    let k = match s.usize(4) {
        3 => {
            // almost a known one
            let k = *s.pick(&["dn", "tr", "ws", "xt", "so", "x.pe", "dht"]);
            let x = *s.pick(&[" ", "\0", "\t", "\n", ".", "\u{a0}", "[]", "\u{200b}", "/", ";"]);
            match s.usize(5) {
                0 => format!("{}{}", k, x),
                1 => format!("{}{}", x, k),
                2 => format!("{}{}{}", &k[..1], x, &k[1..]),
                3 => k.to_uppercase(),
                _ => k[..k.len() - 1].to_string(),
            }
        }
        0 => s.pick(&["xl", "kt", "as", "xs", "mt", "xt.1", "tr.1", "dn.x", "x", "", "XT", "Dn", "x.pe2", "x_pe"]).to_string(),
        1 => {
            let t = s.text(8);
            if ["dn", "tr", "ws", "xt", "so", "x.pe", "dht"].contains(&&t[..]) {
                "x.z".to_string()
            } else if !t.is_empty() && t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'.' || c == b'-') {
                t
            } else {
                // no character of a key may have a meaning in a query
                t.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).chain("_".chars()).collect()
            }
        }
        _ => "x.other".to_string(),
    };
    let v = match s.usize(6) {
        0 => "7-9".to_string(),
        1 => "10.0.0.7:7".to_string(),
        2 => format!("urn:btih:{}", model::hex(&s.id())),
        _ => s.text(30),
    };
    (k, v.into_bytes())
}

// ---- T01 ------------------------------------------------------------------------------------------------------------

pub(crate) enum Topic {
    /// Not an exact topic of BitTorrent: ignored.
    Other,
    Good([u8; 20]),
    Bad,
}
pub(crate) fn topic(s: &mut Src) -> (Vec<u8>, Topic, &'static str) {
    let id = s.id();
    let hexed = mixed_case(s, &model::hex(&id));
    let b32 = mixed_case(s, &model::base32(&id));
    let urn = |t: &str| format!("urn:btih:{}", t).into_bytes();
    match s.weighted(&[6, 6, 2, 3, 3, 3]) {
        0 => (urn(&hexed), Topic::Good(id), "hex"),
        1 => (urn(&b32), Topic::Good(id), "base32"),
        2 => {
            let t = match s.usize(6) {
                0 => format!("urn:sha1:{}", b32),
                1 => format!("urn:btmh:1220{}{}", hexed, &hexed[..24]),
                2 => "urn:btih".to_string(),
                3 => String::new(),
                4 => hexed,
                _ => format!(" urn:btih:{}", hexed),
            };
            (t.into_bytes(), Topic::Other, "another topic")
        }
        3 => {
            // a wrong length
            let base = if s.bool() { hexed.clone() } else { b32 };
            let n = match s.weighted(&[3, 2, 1]) {
                0 => (base.len() + 2 * s.usize(2)).wrapping_sub(1),
                1 => s.usize(90),
                2 if s.bool() => {
                    // a hash that tells its kind and length
                    let t = s.pick(&["1220", "1114", "1620", "b120"]);
                    return (urn(&format!("{}{}{}", t, hexed, &hexed[..24])), Topic::Bad, "wrong length");
                }
                _ => *s.pick(&[0, 1, 20, 31, 33, 39, 41, 64, 72, 80]),
            };
            let mut t: String = base.chars().cycle().take(n).collect();
            if n == 40 || n == 32 {
                t.push('a');
            }
            (urn(&t), Topic::Bad, "wrong length")
        }
        4 => {
            // one character outside the alphabet
            let is_hex = s.bool();
            let mut t = if is_hex { hexed } else { b32 }.into_bytes();
            let i = s.usize(t.len());
            let c = if s.bool() {
                *s.pick(if is_hex { b"gGzZ@`/:-_ +%=\0\x7f" } else { b"0890@[`{/:-_ =\0" })
            } else {
                loop {
                    let c = s.byte() & 0x7f;
                    let inside = if is_hex { c.is_ascii_hexdigit() } else { c.is_ascii_alphabetic() || b"1234567".contains(&c) };
                    if !inside {
                        break c;
                    }
                    if s.chance(1, 2) {
                        break b'!';
                    }
                }
            };
            t[i] = c;
            let t = String::from_utf8(t).expect("ASCII");
            (urn(&t), Topic::Bad, if is_hex { "not hexadecimal" } else { "not base32" })
        }
        _ => {
            // the right number of bytes, but with a multi-byte character
            let base = if s.bool() { hexed } else { b32 };
            let i = s.usize(base.len() - 1);
            let t = format!("{}é{}", &base[..i], &base[i + 2..]);
            (urn(&t), Topic::Bad, "not ASCII")
        }
    }
}
fn t01_check(uri: &str, want: Option<[u8; 20]>) -> R {
    match (parse(uri), want) {
        (Ok(p), Some(h)) => {
            ensure_eq!(model::hex(p.info_hash.as_ref()), model::hex(&h), "info-hash of {:?}", uri);
            let printed = p.to_string();
            let again = parse(&printed).map_err(|e| format!("{:?} prints as {:?}, which does not parse: {}", uri, printed, e))?;
            ensure_eq!(model::hex(again.info_hash.as_ref()), model::hex(&h), "info-hash of {:?}, printed from {:?}", printed, uri);
            Ok(())
        }
        (Ok(p), None) => Err(format!("{:?} is accepted with info-hash {}", uri, p.info_hash)),
        (Err(e), Some(_)) => Err(format!("{:?} is rejected: {}", uri, e)),
        (Err(_), None) => Ok(()),
    }
}
fn t01(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        return in_turn(c, Aspect::Hash);
    }
    let mut params = vec![];
    let mut want = None;
    let mut bad = false;
    let n = c.s.weighted(&[1, 10, 4, 2]);
    for _ in 0..n {
        let (v, t, l) = topic(&mut c.s);
        c.label(l);
        match t {
            Topic::Other => {}
            Topic::Good(h) => want = Some(h),
            Topic::Bad => bad = true,
        }
        params.push(("xt".to_string(), v));
        while c.s.chance(1, 4) {
            let p = match c.s.usize(4) {
                0 => ("dn".to_string(), c.s.text(12).into_bytes()),
                1 => ("tr".to_string(), b"http://tracker.example/announce".to_vec()),
                _ => other_param(&mut c.s),
            };
            params.push(p);
        }
    }
    let mut uri = link(&mut c.s, &params) + &fragment(c);
    if c.s.chance(1, 15) {
        let other = *c.s.pick(&["http://a/?", "magnets:?", "magne:?", "mailto:?", "file:///?", "x-magnet:?"]);
        uri = format!("{}{}", other, &uri[8..]);
        bad = true;
        c.label("another scheme");
    }
    if bad {
        want = None;
    }
    c.label(if want.is_some() { "accepted" } else { "rejected" });
    c.key(&uri);
    c.nontrivial(n > 0);
    c.show(|| uri.clone());
    t01_check(&uri, want)
}
pub const T01: Prop = Prop {
    id: "T01",
    rule: "links with zero to three topics (hexadecimal and base32 in any case, other kinds, wrong lengths, one character outside the alphabet, multi-byte characters) among other parameters, percent-encoded at random, some with a fragment; every character at every position of either form, and every length up to 100; links of up to 262145, some to 2^20 parameters or characters. Non-trivial: at least one topic.",
    assumptions: &["the digit 1 inside a base32 topic, which the decoder takes for I, is left open"],
    quick: 750_000,
    thorough: 5_000_000,
    case: t01,
    phases: &[
        Phase {
            name: "every character at every position",
            count: |_| 128 * 72,
            run: |c, i| {
                let (b, at) = ((i % 128) as u8, (i / 128) as usize);
                let id = *b"\x01\x23\x45\x67\x89\xab\xcd\xef\xfe\xdc\xba\x98\x76\x54\x32\x10\x0f\xf0\x5a\xa5";
                let is_hex = at < 40;
                let mut t = if is_hex { model::hex(&id) } else { model::base32(&id) }.into_bytes();
                let at = if is_hex { at } else { at - 40 };
                t[at] = b;
                if !is_hex && b == b'1' {
                    return Ok(());
                }
                let t = String::from_utf8(t).unwrap();
                let want = if is_hex {
                    model::unhex(t.as_bytes())
                } else {
                    let digit = |c: char| "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567".find(c.to_ascii_uppercase());
                    let d: Option<Vec<usize>> = t.chars().map(digit).collect();
                    d.map(|d| {
                        let bits: Vec<u8> = d.iter().flat_map(|v| (0..5).rev().map(move |k| (v >> k & 1) as u8)).collect();
                        bits.chunks(8).map(|b| b.iter().fold(0, |a, x| a << 1 | x)).collect()
                    })
                };
                let e: String = t.bytes().map(|b| format!("%{:02x}", b)).collect();
                let uri = format!("magnet:?xt=urn:btih:{}", e);
                c.key(&uri);
                c.nontrivial(true);
                c.show(|| uri.clone());
                t01_check(&uri, want.map(|w| w.try_into().unwrap()))
            },
        },
        Phase {
            name: "every length",
            count: |_| 101 * 2,
            run: |c, i| {
                let n = (i / 2) as usize;
                let t = if i % 2 == 0 { "0".repeat(n) } else { "A".repeat(n) };
                let uri = format!("magnet:?xt=urn:btih:{}", t);
                c.key(&uri);
                c.nontrivial(true);
                c.show(|| uri.clone());
                let want = match (n, i % 2) {
                    (40, 0) => Some([0; 20]),
                    (40, _) => Some([0xaa; 20]),
                    (32, 1) => Some([0; 20]),
                    _ => None,
                };
                t01_check(&uri, want)
            },
        },
        Phase {
            name: "a topic in a long link",
            count: |t| model::sized_count(6, if t { 40 } else { 4 }),
            run: |c, i| {
                let (n, kind) = model::sized(i, 6, if c.thorough { 40 } else { 4 }, (1 << 20) + 3);
                let (v, t, l) = topic(&mut c.s);
                let want = match t {
                    Topic::Good(h) => Some(h),
                    _ => None,
                };
                let unit = *c.s.pick(&["x=1", "xt.1=urn", "dn=a", "xl=12", "xs=%41"]);
                let n_before = if kind == 1 { c.s.usize(n + 1) } else { n };
                let text = String::from_utf8(model::percent(&mut c.s, &v, true)).unwrap();
                let mut uri = "magnet:?".to_string();
                match kind {
                    0 | 1 => {
                        // many parameters before it, or around it
                        uri += &format!("{}&", unit).repeat(n_before);
                        uri += &format!("xt={}", text);
                        uri += &format!("&{}", unit).repeat(n - n_before);
                    }
                    2 => uri += &format!("dn={}&xt={}", "n".repeat(n), text),
                    3 => uri += &format!("xt={}&{}=1", text, "k".repeat(n)),
                    4 => uri += &format!("{}xt={}", "&".repeat(n), text),
                    // the same topic again and again, decided by the last
                    _ => {
                        let n = n.min(20_000);
                        let other = model::sha1(&(n as u64).to_le_bytes());
                        for k in 0..n {
                            uri += &format!("xt=urn:btih:{}&", if k % 2 == 0 { model::hex(&other) } else { model::base32(&other) });
                        }
                        if want.is_none() && !v.starts_with(b"urn:btih:") {
                            // an ignored topic: the earlier ones count
                            return t01_check(&(uri + &format!("xt={}", text)), Some(other));
                        }
                        uri += &format!("xt={}", text);
                    }
                }
                c.key(&uri);
                c.nontrivial(true);
                c.label(l);
                c.show(|| show(uri.as_bytes()));
                t01_check(&uri, want).map_err(|e| engine::clip(&e))
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- T02 ------------------------------------------------------------------------------------------------------------

pub(crate) fn peer(s: &mut Src) -> (String, Option<SocketAddr>) {
    let (ip, port) = (s.ip(), s.port());
    if s.chance(1, 25) {
        let t = match s.usize(8) {
            0 => ip.to_string(),
            1 => format!("{}:65536", if ip.is_ipv4() { ip.to_string() } else { format!("[{}]", ip) }),
            2 => "host.example:80".to_string(),
            3 => String::new(),
            4 => format!("{}:", if ip.is_ipv4() { ip.to_string() } else { format!("[{}]", ip) }),
            5 => format!("[{}]", ip),
            6 => "256.1.1.1:80".to_string(),
            _ => format!(":{}", port),
        };
        return (t, None);
    }
    let a = SocketAddr::new(ip, port);
    (a.to_string(), Some(a))
}
pub(crate) fn router(s: &mut Src) -> (String, Result<Option<(String, u16)>, ()>) {
    let mut host = match s.usize(5) {
        0 => "router.example.com".to_string(),
        1 => format!("[{}]", s.v6()),
        2 => s.v4().to_string(),
        3 => s.text(20),
        _ => String::new(),
    };
    if s.chance(1, 8) {
        host = host.replace(':', "");
        return (host, Ok(None));
    }
    let port = s.port();
    if s.chance(1, 20) {
        let p = s.pick(&["", "65536", "-1", "abc", " 80", "80 ", "99999999999999999999", "0x50", "8.0", "é"]);
        let n = if s.chance(1, 8) { 1 + s.usize(500) } else { 1 };
        return (format!("{}:{}", host, p.repeat(n)), Err(()));
    }
    let t = match s.weighted(&[12, 2, 1]) {
        0 => port.to_string(),
        1 => format!("{:05}", port),
        _ => format!("{}{}", "0".repeat(s.usize(700)), port),
    };
    (format!("{}:{}", host, t), Ok(Some((host, port))))
}
#[derive(Default)]
struct Lists {
    name: String,
    trackers: Vec<String>,
    seeds: Vec<String>,
    peers: Vec<SocketAddr>,
    nodes: Vec<(String, u16)>,
}
fn t02_check(uri: &str, bad: bool, l: &Lists) -> R {
    let d = || show(uri.as_bytes());
    match parse(uri) {
        Ok(p) => {
            ensure!(!bad, "{} is accepted in spite of a malformed peer or router", d());
            ensure_eq!(p.name, l.name, "name of {}", d());
            ensure_eq!(p.trackers, l.trackers, "trackers of {}", d());
            ensure_eq!(p.tracker_tiers, (0..l.trackers.len() as isize).collect::<Vec<_>>(), "tiers of {}", d());
            ensure_eq!(p.url_seeds, l.seeds, "web seeds of {}", d());
            ensure_eq!(p.peers, l.peers, "peers of {}", d());
            ensure_eq!(p.dht_nodes, l.nodes, "routers of {}", d());
            ensure!(p.file_priorities.is_empty(), "{} selects files", d());
            Ok(())
        }
        Err(e) => {
            ensure!(bad, "{} is rejected: {}", d(), e);
            Ok(())
        }
    }
}
fn t02(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        return in_turn(c, Aspect::Lists);
    }
    let id = c.s.id();
    let mut params = vec![];
    let (mut name, mut trackers, mut seeds, mut peers, mut nodes) = (String::new(), vec![], vec![], vec![], vec![]);
    let mut bad = false;
    let kinds = c.s.list(40, 8, |s| s.weighted(&[2, 4, 3, 3, 3, 2]));
    let at = c.s.usize(kinds.len() + 1);
    for (i, k) in kinds.iter().enumerate() {
        if i == at {
            params.push(plain_hash(&id));
        }
        match k {
            0 => {
                name = c.s.text(60);
                c.label("name");
                params.push(("dn".to_string(), name.clone().into_bytes()));
            }
            1 | 2 => {
                let t = if c.s.bool() { format!("udp://tracker{}.example:{}/announce?k={}", c.s.usize(9), c.s.port(), c.s.text(5)) } else { c.s.text(40) };
                params.push((if *k == 1 { "tr" } else { "ws" }.to_string(), t.clone().into_bytes()));
                c.label(if *k == 1 { "tracker" } else { "web seed" });
                if *k == 1 {
                    trackers.push(t)
                } else {
                    seeds.push(t)
                }
            }
            3 => {
                let (t, a) = peer(&mut c.s);
                c.label(if a.is_some() { "peer" } else { "bad peer" });
                bad |= a.is_none();
                peers.extend(a);
                params.push(("x.pe".to_string(), t.into_bytes()));
            }
            4 => {
                let (t, r) = router(&mut c.s);
                c.label(match r {
                    Ok(Some(_)) => "router",
                    Ok(None) => "router without a port separator",
                    Err(_) => "bad router port",
                });
                match r {
                    Ok(n) => nodes.extend(n),
                    Err(_) => bad = true,
                }
                params.push(("dht".to_string(), t.into_bytes()));
            }
            _ => params.push(other_param(&mut c.s)),
        }
    }
    if at == kinds.len() {
        params.push(plain_hash(&id));
    }
    let uri = link(&mut c.s, &params) + &fragment(c);
    c.key(&uri);
    c.nontrivial(kinds.len() > 1);
    c.show(|| uri.clone());
    t02_check(&uri, bad, &Lists { name, trackers, seeds, peers, nodes })
}
pub const T02: Prop = Prop {
    id: "T02",
    rule: "up to 40 parameters in random order (names, trackers, web seeds, peers of both families, routers, unknown ones; a few malformed peers and ports), values of arbitrary Unicode, percent-encoded in four styles; up to 262145, some to 2^20 parameters of each kind, and values of as many characters; every Unicode character in a value. Non-trivial: at least two parameters besides the topic.",
    assumptions: &["values are valid UTF-8"],
    quick: 150_000,
    thorough: 5_000_000,
    case: t02,
    phases: &[Phase {
        name: "every character in a value",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            let topic = format!("xt=urn:btih:{}", "0".repeat(40));
            for x in model::chars_block(i) {
                let t = [x.to_string(), format!("a{}b", x), format!("{}a", x), format!("a{}", x)];
                let host = if x == ':' { "h" } else { &t[1] };
                let mut l = Lists { name: t[1].clone(), nodes: vec![(host.to_string(), 6881)], ..Lists::default() };
                let mut uri = format!("magnet:?{}&dn={}&dht={}:6881", topic, model::percent_all(&t[1]), model::percent_all(host));
                for v in &t {
                    uri += &format!("&tr={}&ws={}", model::percent_all(v), model::percent_all(v));
                    l.trackers.push(v.clone());
                    l.seeds.push(v.clone());
                    if !x.is_ascii() {
                        // as it stands
                        uri += &format!("&tr={}&{}=1", v, v);
                        l.trackers.push(v.clone());
                    }
                }
                t02_check(&uri, false, &l)?;
                if !x.is_ascii() {
                    let e = model::percent_all(&t[0]);
                    for p in [
                        format!("x.pe=1.2.3.4:8{}", e), format!("x.pe=1.2.3.4{}:80", e), format!("x.pe={}1.2.3.4:80", e), format!("x.pe=[::1{}]:80", e), format!("x.pe=1.2.3.4{}80", e),
                        format!("dht=a:8{}", e), format!("dht=a:{}8", e), format!("dht=a:8{}0", e), format!("dht=a:{}", e),
                    ] {
                        t02_check(&format!("magnet:?{}&{}", topic, p), true, &Lists::default())?;
                    }
                    // another parameter
                    let p = format!("magnet:?{}&dn{}=a&{}tr=b&w{}s=c&x.pe{}=d&{}dht=e:x&so{}=1", topic, e, e, e, e, e, e);
                    t02_check(&p, false, &Lists::default())?;
                }
            }
            Ok(())
        },
    }, Phase {
        name: "many parameters and long values",
        count: |t| model::sized_count(7, if t { 20 } else { 2 }),
        run: |c, i| {
            let (n, kind) = model::sized(i, 7, if c.thorough { 20 } else { 2 }, (1 << 20) + 3);
            let mut l = Lists::default();
            let mut p: Vec<(&str, String)> = vec![];
            let many = kind < 5;
            let shift = c.s.usize(1000);
            for k in 0..if many { n } else { 3 } {
                match if kind == 4 || !many { k % 5 } else { kind } {
                    0 => {
                        l.trackers.push(format!("http://t{}/", k));
                        p.push(("tr", l.trackers[l.trackers.len() - 1].clone()));
                    }
                    1 => {
                        l.seeds.push(format!("http://s/{}", k + shift));
                        p.push(("ws", l.seeds[l.seeds.len() - 1].clone()));
                    }
                    2 => {
                        let x = (k + shift) as u32;
                        let a = if k % 3 == 0 { SocketAddr::new((x as u128).wrapping_mul(0x1_0001_0000_0001_0007).to_be_bytes().into(), k as u16) } else { SocketAddr::new(x.wrapping_mul(65_599).to_be_bytes().into(), x as u16) };
                        l.peers.push(a);
                        p.push(("x.pe", a.to_string()));
                    }
                    3 => {
                        l.nodes.push((format!("r{}.example", k), (k + shift) as u16));
                        p.push(("dht", format!("r{}.example:{}", k, (k + shift) as u16)));
                    }
                    _ => {
                        l.name = format!("name {}", k);
                        p.push(("dn", l.name.clone()));
                    }
                }
            }
            let long = |t: &str, n: usize| t.chars().cycle().take(n).collect::<String>();
            let (u, w) = (*c.s.pick(&["ab c&%", "é", "+", "1:", "日本x"]), *c.s.pick(&["z", "/", "%41"]));
            match kind {
                5 => {
                    l.trackers.push(long(u, n));
                    p.push(("tr", long(u, n)));
                    l.seeds.push(long(w, n));
                    p.push(("ws", long(w, n)));
                }
                6 => {
                    l.name = long(u, n);
                    p.push(("dn", long(u, n)));
                    l.nodes.push((long(u, n) + "z", 443));
                    p.push(("dht", long(u, n) + "z:443"));
                    p.push(("unknown", long(w, n)));
                }
                _ => {}
            }
            // the topic first, last or within, and perhaps one malformed peer or router
            let id = c.s.id();
            let bad = c.s.chance(1, 6);
            let at = c.s.usize(p.len() + 1);
            if bad {
                p.insert(at, (*c.s.pick(&["x.pe", "dht"]), "host.example:65536".to_string()));
            }
            let mut params: Vec<(String, Vec<u8>)> = p.into_iter().map(|(k, v)| (k.to_string(), v.into_bytes())).collect();
            let at = match c.s.usize(3) {
                0 => 0,
                1 => params.len(),
                _ => c.s.usize(params.len() + 1),
            };
            params.insert(at, plain_hash(&id));
            let uri = if c.s.bool() && many {
                link(&mut c.s, &params)
            } else {
                let hexed = |v: &[u8]| v.iter().map(|&b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
                format!("magnet:?{}", params.iter().map(|(k, v)| format!("{}={}", k, hexed(v))).collect::<Vec<_>>().join("&"))
            };
            c.key(&uri);
            c.nontrivial(true);
            c.label(["many trackers", "many web seeds", "many peers", "many routers", "many of all", "long tracker and seed", "long name and router"][kind]);
            c.label_if(bad, "one malformed among many");
            c.show(|| show(uri.as_bytes()));
            t02_check(&uri, bad, &l)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- T03 ------------------------------------------------------------------------------------------------------------

const MAX_INDEX: u64 = 10_000;

enum Item {
    Files(usize, usize),
    Skip,
    /// A number that cannot be parsed: skipped, or fatal to the link.
    Either,
}
/// What one item of a list means, from the definition.
fn item(t: &str) -> Item {
    let num = |t: &str| -> Option<u64> {
        let t = t.trim_start_matches('0');
        if t.len() > 18 {
            None
        } else if t.is_empty() {
            Some(0)
        } else {
            t.parse().ok()
        }
    };
    let (a, b) = match t.matches('-').count() {
        0 if t.is_empty() => return Item::Skip,
        0 => (t, t),
        1 => {
            let (a, b) = t.split_once('-').unwrap();
            if a.is_empty() || b.is_empty() {
                return Item::Skip;
            }
            (a, b)
        }
        _ => return Item::Either,
    };
    match (num(a), num(b)) {
        (Some(a), Some(b)) if a <= b && b <= MAX_INDEX => Item::Files(a as usize, b as usize),
        (Some(_), Some(_)) => Item::Skip,
        _ => Item::Either,
    }
}
fn t03_check(uri: &str, lists: &[String]) -> Result<(usize, bool), String> {
    let mut want: Vec<bool> = vec![];
    let (mut either, mut open) = (false, false);
    let mut listed = 0;
    for l in lists {
        if l.chars().any(|c| !(c.is_ascii_digit() || c == '-' || c == ',')) {
            continue;
        }
        for t in l.split(',') {
            // "5--0": a range to minus zero, if that is a number
            open |= t.split_once("--").map_or(false, |(_, b)| !b.is_empty() && b.bytes().all(|c| c == b'0'));
            match item(t) {
                Item::Skip => {}
                Item::Either => either = true,
                Item::Files(a, b) => {
                    listed += 1;
                    if want.len() <= b {
                        want.resize(b + 1, false);
                    }
                    want[a..=b].fill(true);
                }
            }
        }
    }
    match parse(uri) {
        Ok(p) => {
            let mut got = vec![];
            for (i, f) in p.file_priorities.iter().enumerate() {
                got.push(match f {
                    DownloadPriority::DontDownload => false,
                    DownloadPriority::DefaultPriority => true,
                    f => return Err(format!("{:?} gives file {} priority {:?}", uri, i, f)),
                });
            }
            let brief = |v: &[bool]| {
                let on: Vec<usize> = v.iter().enumerate().filter(|x| *x.1).map(|x| x.0).take(40).collect();
                format!("{} files with {:?} wanted", v.len(), on)
            };
            ensure!(open || got == want, "{:?} selects {} instead of {}", uri, brief(&got), brief(&want));
            Ok((listed, true))
        }
        Err(e) => {
            ensure!(either, "{:?} is rejected: {}", uri, e);
            Ok((listed, false))
        }
    }
}
fn t03(c: &mut Ctx) -> R {
    if c.s.chance(1, 16) {
        return in_turn(c, Aspect::Files);
    }
    let mut lists = vec![];
    for _ in 0..c.s.range(1, 3) {
        let toks = c.s.list(30, 5, |s| {
            let n = |s: &mut Src| -> String {
                let v = match s.weighted(&[6, 3, 2]) {
                    0 => s.below(30),
                    1 => s.below(10_003),
                    _ => *s.pick(&[0, 9_999, 10_000, 10_001, 65_536, 4_294_967_296, 9_223_372_036_854_775_807]),
                };
                if s.chance(1, 15) {
                    format!("{:06}", v)
                } else {
                    v.to_string()
                }
            };
            match s.weighted(&[8, 6, 2, 1, 1, 1, 1]) {
                0 => n(s),
                1 => {
                    let (a, b) = (n(s), n(s));
                    let (x, y): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
                    if x <= y || s.chance(1, 3) {
                        format!("{}-{}", a, b)
                    } else {
                        format!("{}-{}", b, a)
                    }
                }
                2 => String::new(),
                3 => format!("-{}", n(s)),
                4 => format!("{}-", n(s)),
                5 => "-".to_string(),
                _ => {
                    if s.chance(1, 3) {
                        s.pick(&["9223372036854775808", "99999999999999999999", "1-2-3", "1--3", "--", "1-99999999999999999999999"]).to_string()
                    } else {
                        let k = s.usize(4);
                        (0..k).map(|_| *s.pick(b"0123-") as char).collect()
                    }
                }
            }
        });
        let mut l = toks.join(",");
        if c.s.chance(1, 10) {
            let at = c.s.usize(l.len() + 1);
            l.insert(at, *c.s.pick(&[' ', 'a', '.', '+', '"', '\n', 'é', '٣', ';', '_']));
            c.label("a list with another character");
        }
        lists.push(l);
    }
    let id = c.s.id();
    let mut params: Vec<_> = lists.iter().map(|l| ("so".to_string(), l.clone().into_bytes())).collect();
    let at = c.s.usize(params.len() + 1);
    params.insert(at, plain_hash(&id));
    let uri = link(&mut c.s, &params) + &fragment(c);
    c.key(&uri);
    c.show(|| uri.clone());
    let (n, ok) = t03_check(&uri, &lists)?;
    c.label(if ok { "accepted" } else { "rejected for its numbers" });
    c.label_if(lists.len() > 1, "several lists");
    c.nontrivial(n > 0);
    Ok(())
}
pub const T03: Prop = Prop {
    id: "T03",
    rule: "one to three lists of up to 30 items: indices and ranges in, at and beyond the limit, reversed, half open, empty and malformed items, stray characters; all lists up to a length over 0, 1, 2, hyphen and comma; lists of up to 262145, some to 2^20 items or digits, and up to 30000 lists; every Unicode character in a value. Non-trivial: at least one file listed.",
    assumptions: &["an item like 0--0, a range to minus zero, leaves the selection open"],
    quick: 400_000,
    thorough: 3_000_000,
    case: t03,
    phases: &[Phase {
        name: "every character in a list",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            for x in model::chars_block(i) {
                let e = model::percent_all(&x.to_string());
                for t in [format!("1{}3", x), format!("{}1", x), format!("4,1{}", x), format!("{}", x), format!("1-{}3", x)] {
                    let uri = format!("magnet:?so={}&xt=urn:btih:{}&so=2", t.replace(x, &e), "0".repeat(40));
                    // where the digits are replaced too, so is the escape
                    if !x.is_ascii_digit() {
                        t03_check(&uri, &[t, "2".to_string()])?;
                    }
                }
            }
            Ok(())
        },
    }, Phase {
        name: "short lists",
        count: |t| if t { 488_281 } else { 19_531 },
        run: |c, i| {
            let mut k = i;
            let (mut n, mut block) = (0, 1);
            while k >= block {
                k -= block;
                block *= 5;
                n += 1;
            }
            let mut l = String::new();
            for _ in 0..n {
                l.push(b"021-,"[(k % 5) as usize] as char);
                k /= 5;
            }
            let uri = format!("magnet:?so={}&xt=urn:btih:{}", l, "0".repeat(40));
            c.key(&l);
            c.show(|| uri.clone());
            let (n, _) = t03_check(&uri, &[l])?;
            c.nontrivial(n > 0);
            Ok(())
        },
    }, Phase {
        name: "long lists and many lists",
        count: |t| model::sized_count(6, if t { 40 } else { 4 }),
        run: |c, i| {
            let (n, kind) = model::sized(i, 6, if c.thorough { 40 } else { 4 }, (1 << 20) + 3);
            let step = 1 + c.s.usize(50);
            let first = c.s.usize(10_003);
            // items spread below and somewhat beyond the limit
            let at = |k: usize| (first + k * step) % 10_003;
            let last = *c.s.pick(&["9999", "10000", "10001", "7-9", "3-", "-", ""]);
            let tok = |k: usize| match k % 11 {
                3 => format!("{}-{}", at(k), at(k) + step),
                5 => String::new(),
                7 => format!("{}-", at(k)),
                _ => at(k).to_string(),
            };
            let lists: Vec<String> = match kind {
                0 => vec![(0..n).map(tok).chain([last.to_string()]).collect::<Vec<_>>().join(",")],
                1 => (0..n.min(30_000)).map(tok).chain([last.to_string()]).collect(),
                2 => vec![format!("{}{}", "0".repeat(n), at(0)), last.to_string()],
                3 => vec![format!("{}1,{}", ",".repeat(n), at(1))],
                4 => vec![format!("{}-{}{},{}", at(0).min(at(1)), "0".repeat(n), at(0).max(at(1)), last)],
                _ => vec![(0..n.min(30_000)).map(|k| format!("{}-{}", at(k), at(k) + k % 3)).collect::<Vec<_>>().join(","), last.to_string()],
            };
            let mut t: Vec<String> = lists.iter().map(|l| format!("so={}", l)).collect();
            let place = c.s.usize(t.len() + 1);
            t.insert(place, format!("xt=urn:btih:{}", "0".repeat(40)));
            let uri = format!("magnet:?{}", t.join("&"));
            c.key(&uri);
            c.label(["a long list", "many lists", "leading zeros", "empty items", "leading zeros in a range", "a long list of ranges"][kind]);
            c.show(|| show(uri.as_bytes()));
            let (n, _) = t03_check(&uri, &lists).map_err(|e| e.chars().take(4000).collect::<String>())?;
            c.nontrivial(n > 0);
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- T04 ------------------------------------------------------------------------------------------------------------

const PER_BYTE: usize = 100;
const BASE: usize = 200 << 10;

fn t04_check(uri: &str) -> Result<bool, String> {
    let (r, peak) = alloc::peak(|| parse(uri));
    ensure!(peak <= BASE + PER_BYTE * uri.len(), "parsing {} bytes of {} allocates {} bytes at its peak", uri.len(), show(uri.as_bytes()), peak);
    match r {
        Ok(p) => {
            ensure!(p.trackers.len() == p.tracker_tiers.len(), "{}: {} trackers but {} tiers", show(uri.as_bytes()), p.trackers.len(), p.tracker_tiers.len());
            ensure!(p.file_priorities.len() as u64 <= MAX_INDEX + 1, "{}: {} file priorities", show(uri.as_bytes()), p.file_priorities.len());
            Ok(true)
        }
        Err(_) => Ok(false),
    }
}
fn wild_pair(s: &mut Src) -> Vec<u8> {
    let k = *s.pick(&["dn", "tr", "ws", "xt", "so", "x.pe", "dht", "xt", "so", ""]);
    let v: Vec<u8> = match s.usize(8) {
        0 => topic(s).0,
        1 => peer(s).0.into_bytes(),
        2 => router(s).0.into_bytes(),
        3 => (0..s.size(40)).map(|_| *s.pick(b"0123456789-,")).collect(),
        4 => format!("urn:btih:{}", s.text(45)).into_bytes(),
        5 => s.text(50).into_bytes(),
        6 => s.bytes(8),
        _ => (0..s.size(40)).map(|_| *s.pick(b"\":%,-;&=+1")).collect(),
    };
    let mut out = k.as_bytes().to_vec();
    if s.chance(9, 10) {
        out.push(b'=');
    }
    if s.bool() {
        out.extend(model::percent(s, &v, true));
    } else {
        out.extend(v);
    }
    out
}
fn t04(c: &mut Ctx) -> R {
    let kind = c.s.weighted(&[2, 6, 4, 1]);
    let mut t: Vec<u8> = vec![];
    match kind {
        0 => t = c.s.text(100).into_bytes(),
        1 | 2 => {
            t = c.s.pick(&["magnet:?", "magnet:", "magnet://h/p?", "Magnet:x?"]).as_bytes().to_vec();
            if kind == 2 {
                let id = c.s.id();
                t.extend_from_slice(format!("xt=urn:btih:{}&", model::hex(&id)).as_bytes());
            }
            for p in c.s.list(12, 4, wild_pair) {
                t.extend(p);
                t.push(b'&');
            }
            if c.s.chance(1, 3) {
                model::damage(&mut c.s, &mut t);
            }
        }
        _ => {
            // long and repetitive
            t = format!("magnet:?xt=urn:btih:{}&", "0".repeat(40)).into_bytes();
            let unit = *c.s.pick(&["tr=&", "tr&", "so=0-10000&", "so=10000&", "so=,&", "ws=&", "dht=:1&", "x.pe=1.1.1.1:1&", "dn=a&", "&", "=&", "xt=&", "so=1,1-2,3-&"]);
            for _ in 0..c.s.size(3000) {
                t.extend_from_slice(unit.as_bytes());
            }
            if c.s.bool() {
                t.extend_from_slice(b"so=");
                let unit = *c.s.pick(&["1,", ",", "10000,", "10001,", "0-9,", "1-,", "-,", "9-1,", "-"]);
                for _ in 0..c.s.size(3000) {
                    t.extend_from_slice(unit.as_bytes());
                }
            }
        }
    }
    c.label(["text", "parameters", "parameters and a topic", "long"][kind]);
    let uri = String::from_utf8_lossy(&t).into_owned();
    c.key(&uri);
    c.show(|| show(uri.as_bytes()));
    c.nontrivial(uri.len() > 8);
    let ok = t04_check(&uri)?;
    c.label(if ok { "accepted" } else { "rejected" });
    Ok(())
}
const REPEATED: &[&str] = &[
    "tr=&", "tr&", "so=0-10000&", "so=10000&", "so=0&", "so=1,1&", "so=,&", "ws=&", "dht=:1&", "dht=a&", "x.pe=1.1.1.1:1&", "dn=a&", "&", "=&", "xt=&", "so=1,1-2,3-&", "tr=%41%42&", "xt=urn:btih:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa&",
    "xt=urn:btih:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa&", "1,", ",", "10000,", "10001,", "0-9,", "0-10000,", "1-,", "-,", "9-1,", "-", "0", "1", "a", "%", "%41", "+", "\"", ":", "[", "é", "?", "#",
];
pub const T04: Prop = Prop {
    id: "T04",
    rule: "arbitrary Unicode text, links of arbitrary parameters with and without a valid topic, damaged links, long repetitive links; all one-parameter links whose value is up to three characters of a small alphabet; some 40 short texts repeated up to 262145 times. Non-trivial: over 8 characters.",
    assumptions: &["the bound is 200 KiB + 100 bytes per character, about three times what the densest link needs at the pinned commit"],
    quick: 300_000,
    thorough: 5_000_000,
    case: t04,
    phases: &[Phase {
        name: "short values",
        count: |t| 7 * if t { 22_621 } else { 1_111 },
        run: |c, i| {
            let k = ["dn", "tr", "ws", "xt", "so", "x.pe", "dht"][(i % 7) as usize];
            let mut j = i / 7;
            let alphabet = b"1-,:\"%+a=[";
            let (mut n, mut block) = (0, 1);
            while j >= block {
                j -= block;
                block *= 10;
                n += 1;
            }
            let mut v = String::new();
            for _ in 0..n {
                v.push(alphabet[(j % 10) as usize] as char);
                j /= 10;
            }
            let uri = format!("magnet:?{}={}&xt=urn:btih:{}", k, v, "0".repeat(40));
            c.key(&uri);
            c.nontrivial(true);
            c.show(|| uri.clone());
            let ok = t04_check(&uri)?;
            c.label(if ok { "accepted" } else { "rejected" });
            Ok(())
        },
    }, Phase {
        name: "long repetitive links",
        count: |t| (REPEATED.len() * model::sizes().len()) as u64 * if t { 4 } else { 1 },
        run: |c, i| {
            let n = model::sizes()[i as usize % model::sizes().len()];
            let unit = REPEATED[i as usize / model::sizes().len() % REPEATED.len()];
            let start = *c.s.pick(&["", "so=", "dn=", "xt=urn:btih:", "x.pe=", "dht=", "tr="]);
            let start = if unit.contains('=') { "" } else { start };
            let uri = format!("magnet:?xt=urn:btih:{}&{}{}", "0".repeat(40), start, unit.repeat(n));
            c.key(&uri);
            c.nontrivial(true);
            c.show(|| show(uri.as_bytes()));
            let ok = t04_check(&uri)?;
            c.label(if ok { "accepted" } else { "rejected" });
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- links in turn ------------------------------------------------------------------------------------------------

/// A link with everything it says.
#[derive(Clone, Debug, Hash)]
pub struct Spec {
    id: [u8; 20],
    base32: bool,
    name: String,
    trackers: Vec<String>,
    seeds: Vec<String>,
    peers: Vec<SocketAddr>,
    nodes: Vec<(String, u16)>,
    files: Vec<(usize, usize)>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Hash,
    Lists,
    Files,
    All,
}
impl Spec {
    pub fn uri(&self) -> String {
        let esc = |t: &str| t.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
        let mut u = format!("magnet:?xt=urn:btih:{}", if self.base32 { model::base32(&self.id) } else { model::hex(&self.id) });
        if !self.name.is_empty() {
            u += &format!("&dn={}", esc(&self.name));
        }
        self.trackers.iter().for_each(|t| u += &format!("&tr={}", esc(t)));
        self.seeds.iter().for_each(|t| u += &format!("&ws={}", esc(t)));
        self.peers.iter().for_each(|t| u += &format!("&x.pe={}", t));
        self.nodes.iter().for_each(|t| u += &format!("&dht={}:{}", esc(&t.0), t.1));
        if !self.files.is_empty() {
            let f: Vec<String> = self.files.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect();
            u += &format!("&so={}", f.join(","));
        }
        u
    }
    fn held(&self) -> Held {
        let mut files = vec![0; self.files.iter().map(|f| f.1 + 1).max().unwrap_or(0)];
        self.files.iter().for_each(|&(a, b)| files[a..=b].fill(2));
        Held {
            name: self.name.clone(),
            trackers: self.trackers.clone(),
            tiers: (0..self.trackers.len() as isize).collect(),
            seeds: self.seeds.clone(),
            peers: self.peers.clone(),
            nodes: self.nodes.clone(),
            files,
            hash: self.id,
        }
    }
}
pub fn spec(s: &mut Src) -> Spec {
    let name = if s.bool() { s.text(20) } else { String::new() };
    let trackers = s.list(6, 2, |s| if s.bool() { format!("udp://tracker{}.example:{}/announce", s.usize(9), s.port()) } else { s.text(20) });
    let seeds = s.list(4, 1, |s| s.text(20));
    let peers = s.list(4, 1, |s| SocketAddr::new(s.ip(), s.port()));
    let nodes = s.list(4, 1, |s| (format!("router{}.example", s.usize(99)), s.port()));
    let files = s.list(4, 1, |s| {
        let a = s.usize(40);
        (a, a + s.usize(4))
    });
    Spec { id: s.id(), base32: s.chance(1, 3), name, trackers, seeds, peers, nodes, files }
}
fn vary_text(s: &mut Src, t: &mut String) {
    let mut v: Vec<char> = t.chars().collect();
    match s.usize(4) {
        0 => v.push('x'),
        1 => v.reverse(),
        2 => {
            v.pop();
        }
        _ => {
            if let Some(c) = v.last_mut() {
                *c = if *c == 'a' { 'b' } else { 'a' };
            }
        }
    }
    *t = v.into_iter().collect();
}
/// A link that says nearly the same.
pub fn vary(s: &mut Src, of: &Spec) -> Spec {
    let mut n = of.clone();
    match s.weighted(&[6, 1, 2, 3, 2, 2, 2, 2, 1]) {
        0 => {
            let i = match s.usize(3) {
                0 => 19,
                1 => 0,
                _ => s.usize(20),
            };
            n.id[i] ^= 1 << s.usize(8);
        }
        1 => n.base32 = !n.base32,
        2 => vary_text(s, &mut n.name),
        3 => match s.usize(4) {
            0 => n.trackers.reverse(),
            1 => {
                n.trackers.pop();
            }
            2 => n.trackers.push("http://t.example/".into()),
            _ => {
                if !n.trackers.is_empty() {
                    let k = s.usize(n.trackers.len());
                    vary_text(s, &mut n.trackers[k]);
                }
            }
        },
        4 => match n.seeds.last_mut() {
            Some(t) if s.bool() => vary_text(s, t),
            _ => n.seeds.push("http://s.example/".into()),
        },
        5 => match n.peers.last_mut() {
            Some(p) if s.bool() => p.set_port(p.port() ^ 1),
            _ => n.peers.push(([10, 0, 0, 1], 6881).into()),
        },
        6 => match n.nodes.last_mut() {
            Some(p) if s.bool() => p.1 ^= 1,
            _ => n.nodes.push(("r.example".into(), 6881)),
        },
        7 => match n.files.last_mut() {
            Some(f) if s.bool() => f.1 += 1,
            _ => n.files.push((3, 5)),
        },
        _ => {
            // the same entries under another hash
            n.id = s.id();
        }
    }
    n
}
pub fn check(l: &Spec, uri: &[u8], a: Aspect) -> R {
    let uri = std::str::from_utf8(uri).map_err(|e| e.to_string())?;
    let p = parse(uri).map_err(|e| format!("{:?} is rejected: {}", uri, e))?;
    let (got, mut want) = (held(&p), l.held());
    match a {
        Aspect::Hash => want = Held { hash: want.hash, ..got.clone() },
        Aspect::Files => want = Held { files: want.files, ..got.clone() },
        Aspect::Lists => want = Held { hash: got.hash, files: got.files.clone(), ..want },
        Aspect::All => {}
    }
    ensure!(got == want, "{:?} is read as {} instead of {}", uri, engine::clip(&got), engine::clip(&want));
    Ok(())
}
/// Links that say nearly the same, in turn.
pub fn in_turn(c: &mut Ctx, a: Aspect) -> R {
    let mut all = vec![spec(&mut c.s)];
    for _ in 0..1 + c.s.usize(3) {
        let from = c.s.usize(all.len());
        let n = c.s.span(|s| vary(s, &all[from].clone()));
        all.push(n);
    }
    let st = engine::turns::steps(&mut c.s, 1, all.len());
    let uris: Vec<Vec<u8>> = all.iter().map(|l| l.uri().into_bytes()).collect();
    c.label("related links in turn");
    c.key(&(&uris, &st.steps, st.place, st.threads));
    c.nontrivial(true);
    c.show(|| format!("{:?}: {}", st, uris.iter().map(|u| show(u)).collect::<Vec<_>>().join(", ")));
    st.run(c, &uris, |_, i, uri| check(&all[i], uri, a))
}

// ---- T08 ------------------------------------------------------------------------------------------------------------

/// What parameters hold, as far as a link can say.
#[derive(Clone, Debug, Default, PartialEq)]
struct Held {
    name: String,
    trackers: Vec<String>,
    tiers: Vec<isize>,
    seeds: Vec<String>,
    peers: Vec<SocketAddr>,
    nodes: Vec<(String, u16)>,
    files: Vec<u8>,
    hash: [u8; 20],
}
fn level(p: &DownloadPriority) -> u8 {
    match p {
        DownloadPriority::DontDownload => 0,
        DownloadPriority::LowPriority => 1,
        DownloadPriority::DefaultPriority => 2,
        DownloadPriority::TopPriority => 3,
    }
}
fn held(p: &TorrentParams) -> Held {
    let mut hash = [0; 20];
    hash.copy_from_slice(p.info_hash.as_ref());
    Held {
        name: p.name.clone(),
        trackers: p.trackers.clone(),
        tiers: p.tracker_tiers.clone(),
        seeds: p.url_seeds.clone(),
        peers: p.peers.clone(),
        nodes: p.dht_nodes.clone(),
        files: p.file_priorities.iter().map(level).collect(),
        hash,
    }
}
/// A link with a few good parameters and one fault.
fn rejected_link(s: &mut Src) -> String {
    let mut params = s.list(8, 3, |s| match s.usize(7) {
        0 => ("dn".to_string(), s.text(12).into_bytes()),
        1 => ("tr".to_string(), s.text(12).into_bytes()),
        2 => ("ws".to_string(), s.text(12).into_bytes()),
        3 => ("x.pe".to_string(), SocketAddr::new(s.ip(), s.port()).to_string().into_bytes()),
        4 => ("dht".to_string(), format!("h{}:{}", s.usize(9), s.port()).into_bytes()),
        5 => ("so".to_string(), s.size(60).to_string().into_bytes()),
        _ => other_param(s),
    });
    let fault = match s.usize(7) {
        // no topic at all, or of another kind
        0 => None,
        1 => Some(("xt", "urn:sha1:YNCKHTQCWBTRNJIV4WNAE52SJUQCZO5C".to_string())),
        2 => Some(("xt", format!("urn:btih:{}", &model::hex(&s.id())[1..]))),
        3 => Some(("xt", format!("urn:btih:{}z", &model::hex(&s.id())[1..]))),
        4 => Some(("x.pe", s.pick(&["", "10.0.0.1", "10.0.0.1:", "10.0.0:80", "10.0.0.1:65536", "[::1]", "host:80"]).to_string())),
        5 => Some(("dht", s.pick(&["h:", "h:x", "h:65536", "h:-1", ":"]).to_string())),
        _ => Some(("so", s.pick(&["99999999999999999999", "1,99999999999999999999", "3-99999999999999999999"]).to_string())),
    };
    let needs_topic = !matches!(&fault, None | Some(("xt", _)));
    if let Some((k, v)) = fault {
        let at = s.usize(params.len() + 1);
        params.insert(at, (k.to_string(), v.into_bytes()));
    }
    if needs_topic && s.bool() {
        let at = s.usize(params.len() + 1);
        params.insert(at, plain_hash(&s.id()));
    }
    let uri = link(s, &params);
    if s.chance(1, 12) {
        return uri.replacen(|c: char| c.is_ascii_alphabetic(), "x", 1);
    }
    uri
}
fn t08(c: &mut Ctx) -> R {
    let mut p = TorrentParams::default();
    let mut m = held(&p);
    // what the parameters hold before, perhaps
    if c.s.chance(2, 3) {
        m.name = c.s.text(20);
        m.trackers = c.s.list(6, 2, |s| s.text(12));
        m.tiers = m.trackers.iter().map(|_| c.s.usize(9) as isize - 2).collect();
        match c.s.weighted(&[6, 2, 1]) {
            1 => {
                // tiers were never filled in, or only in part
                let n = c.s.usize(m.trackers.len() + 1);
                m.tiers.truncate(n);
                c.label_if(n < m.trackers.len(), "fewer tiers than trackers before");
            }
            2 => {
                m.tiers.push(7);
                c.label("more tiers than trackers before");
            }
            _ => {}
        }
        m.seeds = c.s.list(5, 1, |s| s.text(12));
        m.peers = c.s.list(5, 1, |s| SocketAddr::new(s.ip(), s.port()));
        m.nodes = c.s.list(5, 1, |s| (s.text(12), s.port()));
        m.files = c.s.list(40, 6, |s| s.usize(4) as u8);
        if c.s.chance(1, 12) {
            // many files: the same few priorities over and over
            let n = c.s.size(10_300);
            let some = m.files.clone();
            m.files = (0..n).map(|i| if some.is_empty() { 3 } else { some[i % some.len()] }).collect();
            c.label_if(n > 300, "hundreds of files before");
        }
        m.hash = c.s.id();
        p.name = m.name.clone();
        p.trackers = m.trackers.clone();
        p.tracker_tiers = m.tiers.clone();
        p.url_seeds = m.seeds.clone();
        p.peers = m.peers.clone();
        p.dht_nodes = m.nodes.clone();
        p.file_priorities = m
            .files
            .iter()
            .map(|f| match f {
                0 => DownloadPriority::DontDownload,
                1 => DownloadPriority::LowPriority,
                2 => DownloadPriority::DefaultPriority,
                _ => DownloadPriority::TopPriority,
            })
            .collect();
        p.info_hash = m.hash.into();
        c.label("parameters filled before");
    }
    let rounds = c.s.range(1, 4);
    let mut shown = vec![format!("{:?}", m)];
    for _ in 0..rounds {
        if c.s.chance(1, 5) {
            // a link that is rejected in between
            let uri = rejected_link(&mut c.s);
            let before = held(&p);
            let r = parse_magnet_uri(&uri, &mut p);
            ensure!(r.is_err(), "{:?} is accepted after {:?}", uri, shown);
            let now = held(&p);
            let n = before.trackers.len();
            let kept = now.trackers.starts_with(&before.trackers)
                && now.seeds.starts_with(&before.seeds)
                && now.peers.starts_with(&before.peers)
                && now.nodes.starts_with(&before.nodes)
                && now.tiers.starts_with(&before.tiers[..n.min(before.tiers.len())])
                && now.files.len() >= before.files.len()
                && before.files.iter().zip(&now.files).all(|(a, b)| a == b || *b == 2);
            ensure!(kept, "the rejected {:?} leaves {} of {}", uri, engine::clip(&now), engine::clip(&before));
            m = now;
            c.label("a rejected link in between");
            c.key(&uri);
            shown.push(uri);
        }
        let mut params = vec![];
        let id = c.s.id();
        let mut tier = 0;
        let kinds = c.s.list(14, 4, |s| s.weighted(&[1, 3, 2, 2, 2, 3, 1]));
        let at = c.s.usize(kinds.len() + 1);
        let before = m.clone();
        for (i, k) in kinds.iter().enumerate() {
            if i == at {
                params.push(plain_hash(&id));
            }
            match k {
                0 => {
                    m.name = c.s.text(12);
                    params.push(("dn".to_string(), m.name.clone().into_bytes()));
                }
                1 => {
                    // now and then one that is held already
                    let t = if !m.trackers.is_empty() && c.s.chance(1, 3) { c.s.pick(&m.trackers).clone() } else { c.s.text(12) };
                    params.push(("tr".to_string(), t.clone().into_bytes()));
                    m.tiers.resize(m.trackers.len(), 0);
                    m.trackers.push(t);
                    m.tiers.push(tier);
                    tier += 1;
                }
                2 => {
                    let t = if !m.seeds.is_empty() && c.s.chance(1, 3) { c.s.pick(&m.seeds).clone() } else { c.s.text(12) };
                    params.push(("ws".to_string(), t.clone().into_bytes()));
                    m.seeds.push(t);
                }
                3 => {
                    let a = if !m.peers.is_empty() && c.s.chance(1, 3) { *c.s.pick(&m.peers) } else { SocketAddr::new(c.s.ip(), c.s.port()) };
                    params.push(("x.pe".to_string(), a.to_string().into_bytes()));
                    m.peers.push(a);
                }
                4 => {
                    let (h, n) = (c.s.text(9), c.s.port());
                    params.push(("dht".to_string(), format!("{}:{}", h, n).into_bytes()));
                    m.nodes.push((h, n));
                }
                5 => {
                    let mut parts = vec![];
                    for _ in 0..1 + c.s.usize(8) / 6 {
                        let (a, w) = match c.s.weighted(&[20, 2, 1]) {
                            0 => (c.s.size(60), c.s.usize(6)),
                            // around the end of the files held
                            1 => ((m.files.len() + c.s.usize(8)).saturating_sub(4), c.s.size(300)),
                            _ => (c.s.usize(10_001), c.s.size(10_000)),
                        };
                        let a = a.min(10_000);
                        let b = (a + w).min(10_000);
                        parts.push(if a == b { a.to_string() } else { format!("{}-{}", a, b) });
                        if m.files.len() <= b {
                            c.label_if(m.files.len() > 300, "a selection past hundreds of files");
                            m.files.resize(b + 1, 0);
                        }
                        m.files[a..=b].fill(2);
                    }
                    params.push(("so".to_string(), parts.join(",").into_bytes()));
                }
                _ => params.push(other_param(&mut c.s)),
            }
        }
        if at == kinds.len() {
            params.push(plain_hash(&id));
        }
        m.hash = id;
        let uri = link(&mut c.s, &params) + &fragment(c);
        c.key(&uri);
        c.show(|| uri.clone());
        let r = parse_magnet_uri(&uri, &mut p);
        ensure!(r.is_ok(), "{:?} is rejected after {:?}: {:?}", uri, shown, r);
        let got = held(&p);
        // tiers that never matched their trackers stay as they are until a tracker is added
        if before.tiers.len() != before.trackers.len() && tier == 0 {
            c.label("no tracker to mend the tiers");
        }
        ensure!(got == m, "parsing {:?} into parameters after {:?} gives {} instead of {}", uri, shown, engine::clip(&got), engine::clip(&m));
        shown.push(uri);
    }
    c.label_if(rounds > 1, "several links");
    c.nontrivial(shown.len() > 1 && (shown[0].len() > 150 || rounds > 1));
    c.key(&shown);
    Ok(())
}
pub const T08: Prop = Prop {
    id: "T08",
    rule: "parameters, empty or holding random entries (with as many tiers as trackers, or fewer, or more), into which one to four well-formed links of up to 14 parameters, and some that are rejected, are parsed, with repeated entries and overlapping file selections; after each link everything held is compared. Non-trivial: something held before the last link.",
    assumptions: &["new trackers of a link get tiers counted from 0, and trackers without a tier get tier 0, as in libtorrent"],
    quick: 800_000,
    thorough: 8_000_000,
    case: t08,
    phases: &[],
    terminates: true,
    extra: None,
};
