//! T12: a rejected link or text is rejected for what is wrong with it.
use crate::magnet::{link, other_param, peer, plain_hash, router, topic, Topic};
use engine::model;
use engine::{ensure, show, Ctx, Phase, Prop, Src, R};
use torrent_rs::verif_hooks::error::Error;
use torrent_rs::verif_hooks::magnet_uri::parse_magnet_uri;
use torrent_rs::verif_hooks::params::TorrentParams;
use torrent_rs::verif_hooks::str_utl;

/// Nothing for a cause that is left open.
fn same(e: &Error, want: &str) -> bool {
    format!("{:?}", e) == want
}
fn link_check(uri: &str, want: &str, why: &str) -> R {
    let fresh = uri.parse::<TorrentParams>().err();
    let mut p = TorrentParams::default();
    let filled = parse_magnet_uri(uri, &mut p).err();
    for (how, e) in [("parsed", fresh), ("read into parameters", filled)] {
        match e {
            None => return Err(format!("{} is accepted ({}): {}", show(uri.as_bytes()), how, why)),
            Some(e) => ensure!(same(&e, want), "{} is rejected ({}) with {:?}, not {}: {}", show(uri.as_bytes()), how, e, want, why),
        }
    }
    Ok(())
}
fn result<T: std::fmt::Debug>(what: &str, s: &[u8], r: Result<T, Error>, want: &str) -> R {
    match r {
        Ok(v) => Err(format!("{} of {} is {:?}", what, show(s), v)),
        Err(e) => {
            ensure!(same(&e, want), "{} of {} is rejected with {:?}, not {}", what, show(s), e, want);
            Ok(())
        }
    }
}
/// The first fit value among a few; the generator may have run dry.
fn among<T>(s: &mut Src, f: impl Fn(&mut Src) -> Option<T>, otherwise: T) -> T {
    (0..30).find_map(|_| f(s)).unwrap_or(otherwise)
}
/// A parameter that no link is rejected for.
fn sound(s: &mut Src) -> (String, Vec<u8>) {
    let (k, v) = match s.usize(7) {
        0 => ("dn", s.text(12)),
        1 => ("tr", s.text(12)),
        2 => ("ws", s.text(12)),
        3 => ("x.pe", among(s, |s| Some(peer(s)).filter(|p| p.1.is_some()).map(|p| p.0), "1.2.3.4:5".to_string())),
        4 => ("dht", among(s, |s| Some(router(s)).filter(|r| r.1.is_ok()).map(|r| r.0), "a:1".to_string())),
        5 => ("so", s.pick(&["1", "1-3", "", ",", "3-1", "1-", "-1", "10001", "a", "9-9,2"]).to_string()),
        _ => return other_param(s),
    };
    (k.to_string(), v.into_bytes())
}
const KINDS: [&str; 10] =
    ["not a URL", "another scheme", "no topic", "a malformed topic", "a malformed peer", "a malformed router", "a number beyond measure", "a malformed escape", "not a number", "a malformed endpoint"];
fn t12(c: &mut Ctx) -> R {
    let kind = c.s.usize(KINDS.len());
    c.label(KINDS[kind]);
    if kind >= 7 {
        return text(c, kind);
    }
    let id = c.s.id();
    let mut params: Vec<(String, Vec<u8>)> = c.s.list(6, 4, sound);
    if kind != 2 {
        let at = c.s.usize(params.len() + 1);
        params.insert(at, plain_hash(&id));
    }
    let s = &mut c.s;
    let fault: Option<(&str, Vec<u8>)> = match kind {
        2 if s.bool() => Some((
            "xt",
            among(s, |s| Some(topic(s)).filter(|t| matches!(t.1, Topic::Other)).map(|t| t.0), b"urn:sha1:x".to_vec()),
        )),
        3 => Some((
            "xt",
            among(s, |s| Some(topic(s)).filter(|t| matches!(t.1, Topic::Bad)).map(|t| t.0), b"urn:btih:".to_vec()),
        )),
        4 => Some((
            "x.pe",
            match s.usize(3) {
                // anything without a single colon
                0 => s.text(12).replace(':', ".").into_bytes(),
                _ => among(s, |s| Some(peer(s)).filter(|p| p.1.is_none()).map(|p| p.0), String::new()).into_bytes(),
            },
        )),
        5 => Some((
            "dht",
            match s.usize(3) {
                0 => {
                    let host = s.text(6);
                    let port = s.pick(&["x", "", "65536", "70000", "-1", "1 ", "4294967296", "18446744073709551617"]);
                    format!("{}:{}", host, port).into_bytes()
                }
                _ => among(s, |s| Some(router(s)).filter(|r| r.1.is_err()).map(|r| r.0), ":".to_string()).into_bytes(),
            },
        )),
        6 => {
            let n = s.pick(&["9223372036854775808", "99999999999999999999", "18446744073709551616", "340282366920938463463374607431768211456"]);
            Some((
                "so",
                match s.usize(4) {
                    0 => n.to_string(),
                    1 => format!("1,{}", n),
                    2 => format!("{}-3", n),
                    _ => format!("3-{},4", n),
                }
                .into_bytes(),
            ))
        }
        _ => None,
    };
    if let Some((k, v)) = fault {
        let at = s.usize(params.len() + 1);
        params.insert(at, (k.to_string(), v));
    }
    let mut uri = link(s, &params);
    let mut want = ["InvalidUrl", "UnsupportedUrlProtocol", "MissingInfoHash", "InvalidInfoHash", "ParseEndpoint", "ParseInt", "ParseInt"][kind];
    match kind {
        0 => {
            let rest = uri[8..].to_string();
            uri = match s.usize(6) {
                0 => rest.replace(':', "%3a"),
                1 => String::new(),
                2 => format!("?{}", rest),
                3 => format!("://{}", rest),
                4 => format!("1magnet:?{}", rest),
                _ => format!("mag net:?{}", rest),
            };
        }
        1 => {
            let other = *s.pick(&["http://a.example/?", "magnets:?", "magne:?", "mailto:?", "file:///?", "x-magnet:?", "urn:btih:?", "magnet.x:?", "udp://t.example:1/?", "data:,?"]);
            // without a topic, too: the scheme comes first
            if s.chance(1, 8) {
                uri = s.pick(&[other, "http://a.example/", "mailto:x", "file:///x", "urn:btih", "http://a.example/#magnet:?", "magnets:"]).to_string();
            } else {
                uri = format!("{}{}", other, &uri[8..]);
            }
        }
        2 if s.chance(1, 10) => uri = s.pick(&["magnet:", "magnet:?", "magnet:?xt", "magnet:?xt=", "magnet:x", "magnet:?&&", "MAGNET:#xt=urn:btih:"]).to_string(),
        _ => {}
    }
    if uri.is_empty() {
        want = "InvalidUrl";
    }
    c.key(&uri);
    c.nontrivial(!params.is_empty());
    c.show(|| format!("{}: {} ({})", KINDS[kind], uri, want));
    link_check(&uri, want, KINDS[kind])
}
fn text(c: &mut Ctx, kind: usize) -> R {
    let s = &mut c.s;
    let (before, after) = (s.text(20), s.text(20));
    let (t, want, bytes_too): (Vec<u8>, &str, bool) = match kind {
        7 => {
            let (mut t, style) = (model::percent(s, before.as_bytes(), true), s.usize(4));
            let mut tail = model::percent(s, after.as_bytes(), true);
            match style {
                0 => {
                    // cut
                    t.extend_from_slice(*s.pick(&[&b"%"[..], b"%4", b"%f", b"%A"]));
                    tail.clear();
                }
                1 => {
                    let bad = *s.pick(b"gG/:@`xZ +%\0\x7f\x80\xff");
                    t.extend_from_slice(&[b'%', bad, b'1']);
                }
                2 => {
                    let bad = *s.pick(b"gG/:@`xZ +%\0\x7f\x80\xff");
                    t.extend_from_slice(&[b'%', b'1', bad]);
                }
                // well-formed, but no text
                _ => t.extend_from_slice(*s.pick(&[&b"%ff"[..], b"%C3%28", b"\xff", b"%e2%82.", b"%ED%A0%80", b"%F4%90%80%80.", b"%c0%80"])),
            }
            t.extend(tail);
            (t, "InvalidEscapedString", style != 3)
        }
        8 => {
            let t = match s.usize(5) {
                0 => s.pick(&["", "-", "+", "--1", "+-1", "1x", " 1", "1 ", "1.5", "0x1", "9223372036854775808", "-9223372036854775809", "1,000", "١"]).as_bytes().to_vec(),
                1 => format!("{}{}", s.u64(), s.u64() | 1 << 62).into_bytes(),
                2 => [s.int().to_string().as_bytes(), &[s.byte() | 0x80]].concat(),
                3 => [&[s.byte() | 0x80][..], s.int().to_string().as_bytes()].concat(),
                _ => [s.int().to_string().as_bytes(), s.pick(&["-", "+", ":", "l", "\0", "_"]).as_bytes()].concat(),
            };
            (t, "ParseInt", false)
        }
        _ => {
            let pad = |s: &mut Src| s.pick(&["", "", " ", "\t\r\n", "  "]).to_string();
            let ip = s.v6().to_string();
            let (t, want) = match s.usize(4) {
                0 => (String::new(), "InvalidPort"),
                1 => (format!("[{}{}", ip, s.pick(&["", ":80", " ", ":", "[", "[:80"])), "ExpectedCloseBracketInAddr"),
                2 => (format!("[{}]{}", ip, s.pick(&["", ":", "8"])), "InvalidPort"),
                _ => (format!("[{}]{}", ip, s.pick(&["80", ";80", ".80", "]:80", "[:80", " :80"])), "InvalidPort"),
            };
            (format!("{}{}{}", pad(s), t, pad(s)).into_bytes(), want, false)
        }
    };
    c.key(&t);
    c.nontrivial(t.len() > 1);
    c.show(|| format!("{}: {} ({})", KINDS[kind], show(&t), want));
    match kind {
        7 => {
            if bytes_too {
                result("the unescaped bytes", &t, str_utl::unescape_bytes(&t), want)?;
            }
            result("the unescaped text", &t, str_utl::unescape_string(&t), want)
        }
        8 => result("the number", &t, str_utl::parse_int(&t), want),
        _ => result("the endpoint", &t, str_utl::parse_endpoint(&t), want),
    }
}
pub const T12: Prop = Prop {
    id: "T12",
    rule: "links with one fault among up to six sound parameters: no URL, another scheme, no topic or only topics of another kind, a topic of a wrong length or with a character outside its alphabet, a malformed peer, a router with a malformed port, a file number beyond any measure; malformed and non-textual escapes, texts that are no number, endpoints without a port or a closing bracket; every character in an escape; every character outside ASCII next to a number or in a hash. Non-trivial: at least one parameter, or over one byte long.",
    assumptions: &["links with several faults are left open, except that the scheme is judged first", "endpoints that parse_endpoint would have to accept are left out: it does not implement them"],
    quick: 400_000,
    thorough: 20_000_000,
    case: t12,
    phases: &[Phase {
        name: "every character in a number",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            let hash = "0".repeat(38);
            for x in model::chars_block(i).filter(|x| !x.is_ascii()) {
                let e = model::percent_all(&x.to_string());
                for t in [format!("{}", x), format!("{}1", x), format!("1{}", x), format!("1{}2", x)] {
                    result("the number", t.as_bytes(), str_utl::parse_int(t.as_bytes()), "ParseInt")?;
                }
                link_check(&format!("magnet:?xt=urn:btih:{}00&dht=a:1{}", hash, e), "ParseInt", "a malformed router")?;
                link_check(&format!("magnet:?xt=urn:btih:{}00&x.pe=1.2.3.4:1{}", hash, e), "ParseEndpoint", "a malformed peer")?;
                // as many characters as a hash of 40, or of 32, has
                link_check(&format!("magnet:?xt=urn:btih:{}0{}", hash, e), "InvalidInfoHash", "a malformed topic")?;
                link_check(&format!("magnet:?xt=urn:btih:{}{}", &hash[..31], e), "InvalidInfoHash", "a malformed topic")?;
                // and as many bytes
                link_check(&format!("magnet:?xt=urn:btih:{}{}", &"0".repeat(40)[x.len_utf8()..], e), "InvalidInfoHash", "a malformed topic")?;
                link_check(&format!("magnet:?xt=urn:btih{}{}00", e, hash), "MissingInfoHash", "no topic")?;
            }
            Ok(())
        },
    }, Phase {
        name: "every character in an escape",
        count: |_| 512,
        run: |c, i| {
            let b = (i / 2) as u8;
            let t = if i % 2 == 0 { vec![b'%', b, b'1'] } else { vec![b'%', b'1', b] };
            c.key(&i);
            c.nontrivial(!b.is_ascii_hexdigit());
            c.show(|| show(&t));
            if b.is_ascii_hexdigit() {
                return Ok(());
            }
            result("the unescaped bytes", &t, str_utl::unescape_bytes(&t), "InvalidEscapedString")
        },
    }],
    terminates: true,
    extra: None,
};
