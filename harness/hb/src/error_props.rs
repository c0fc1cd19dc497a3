//! B09: a rejected document is rejected for what is wrong with it.
use bencode::{Error, Value, ValueRef};
use engine::model::{self, Val};
use engine::{ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};
use std::io;

fn check(doc: &[u8], want: &[Error], why: &str) -> R {
    // limits that restrict nothing
    let n = doc.len() + 1;
    let all = [
        ("owned", Value::decode(doc).err()),
        ("borrowed", ValueRef::decode(doc).err()),
        ("owned, with wide limits", Value::decode_with_limits(doc, Some(n), Some(n)).err()),
        ("borrowed, with wide limits", ValueRef::decode_with_limits(doc, Some(n), Some(n)).err()),
    ];
    for (how, e) in all {
        match e {
            None => return Err(format!("{} is accepted ({}): {}", show(doc), how, why)),
            Some(e) => ensure!(want.contains(&e), "{} is rejected ({}) with {:?}, not {:?}: {}", show(doc), how, e, want, why),
        }
    }
    Ok(())
}
/// Puts `inner` somewhere inside containers with something around it.
fn around(s: &mut Src, inner: &[u8]) -> Vec<u8> {
    let mut v = inner.to_vec();
    for _ in 0..s.usize(4) {
        let (a, b) = (model::val(s, 1).to_vec(), model::val(s, 1).to_vec());
        v = match s.usize(5) {
            0 => [b"l", &v[..], b"e"].concat(),
            1 => [b"l", &a[..], &v, &b, b"e"].concat(),
            2 => [b"d1:k", &v[..], b"e"].concat(),
            3 => [b"d1:a", &a[..], b"1:b", &v, b"1:c", &b, b"e"].concat(),
            _ => [b"l", &v[..], &b, b"e"].concat(),
        };
    }
    v
}
const KINDS: [&str; 9] = ["cut between tokens", "cut inside a string", "cut inside a number", "a stray byte", "an end with nothing open", "no number", "no length", "a dictionary with a bad key", "longer than what is left"];
fn b09(c: &mut Ctx) -> R {
    let kind = c.s.usize(KINDS.len());
    let depth = c.s.usize(4);
    let v = model::val(&mut c.s, depth);
    let (doc, want): (Vec<u8>, Vec<Error>) = match kind {
        0 | 1 | 2 => {
            let mut d = vec![];
            let sloppy = c.s.bool();
            model::spell(&mut c.s, &v, sloppy, &mut d);
            let toks = model::decode_tokens(&d).ok_or("the reference rejects what it spelled")?.1;
            let mut at = toks[c.s.usize(toks.len())].at;
            if kind > 0 {
                // a token of the right kind, the given one if there is none
                let fit: Vec<usize> = toks.iter().map(|t| t.at).filter(|&a| if kind == 1 { d[a].is_ascii_digit() } else { d[a].is_ascii_digit() || d[a] == b'i' }).collect();
                if fit.is_empty() {
                    d = b"4:spam".to_vec();
                    at = 0;
                } else {
                    at = fit[c.s.usize(fit.len())];
                }
            }
            match kind {
                0 => {
                    d.truncate(at);
                    (d, vec![Error::EOF])
                }
                1 => {
                    let colon = at + d[at..].iter().position(|&b| b == b':').expect("a length");
                    let n: usize = model::number(&d[at..colon], false).expect("a number") as usize;
                    if n == 0 {
                        d.truncate(at);
                    } else {
                        let keep = c.s.usize(n);
                        d.truncate(colon + 1 + keep);
                    }
                    (d, vec![Error::EOF])
                }
                _ => {
                    let stop = if d[at] == b'i' { b'e' } else { b':' };
                    let digits = d[at + 1..].iter().position(|&b| b == stop).expect("a terminator");
                    let keep = c.s.usize(digits + 1);
                    d.truncate(at + 1 + keep);
                    // nothing at all after the i may count as the end, too
                    (d, if stop == b'e' && keep == 0 { vec![Error::EOF, Error::ExpectedChar(stop)] } else { vec![Error::ExpectedChar(stop)] })
                }
            }
        }
        3 => {
            let b = loop {
                let b = c.s.byte();
                if !b.is_ascii_digit() && !b"ilde".contains(&b) {
                    break b;
                }
                if c.s.chance(1, 2) {
                    break b'x';
                }
            };
            let d = v.to_vec();
            let toks = model::decode_tokens(&d).ok_or("the reference rejects what it encoded")?.1;
            let at = toks[c.s.usize(toks.len())].at;
            let mut t = d[..at].to_vec();
            t.push(b);
            if c.s.bool() {
                t.extend_from_slice(&d[at..]);
            }
            (t, vec![Error::InvalidChar(b)])
        }
        4 => {
            let mut t = b"e".to_vec();
            if c.s.bool() {
                v.encode(&mut t);
            }
            (t, vec![Error::InvalidChar(b'e')])
        }
        5 => {
            let t = match c.s.usize(4) {
                0 => c.s.pick(&["", "-", "+", "--1", "+-1", "1x", " 1", "1 ", "1.5", "0x1", "9223372036854775808", "-9223372036854775809", "1,000"]).as_bytes().to_vec(),
                1 => format!("{}{}", c.s.u64(), c.s.u64() | 1 << 62).into_bytes(),
                2 => [c.s.int().to_string().as_bytes(), &[c.s.byte() | 0x80]].concat(),
                _ => [c.s.int().to_string().as_bytes(), c.s.pick(&["-", "+", ":", "l", "\0", "_"]).as_bytes()].concat(),
            };
            (around(&mut c.s, &[b"i", &t[..], b"e"].concat()), vec![Error::ParseInt])
        }
        6 => {
            let t = match c.s.usize(3) {
                0 => c.s.pick(&["1x", "0-", "1 ", "9223372036854775808", "99999999999999999999999", "1e1", "0x1"]).as_bytes().to_vec(),
                1 => [c.s.u16().to_string().as_bytes(), &[c.s.byte() | 0x80]].concat(),
                _ => [c.s.u16().to_string().as_bytes(), c.s.pick(&["-", "+", "e", "i", "\0", "_", "d"]).as_bytes()].concat(),
            };
            (around(&mut c.s, &[&t[..], b":spam"].concat()), vec![Error::ParseInt])
        }
        7 => {
            let val = v.to_vec();
            let n = match c.s.weighted(&[4, 2, 1]) {
                0 => c.s.usize(3),
                1 => c.s.usize(12),
                _ => c.s.usize(300),
            };
            // keys and values in turn
            let mut parts: Vec<Vec<u8>> = vec![];
            for i in 0..n {
                parts.push(format!("4:{:04}", i).into_bytes());
                parts.push(if c.s.chance(1, 4) { val.clone() } else { b"i1e".to_vec() });
            }
            let at = 2 * c.s.usize(n + 1);
            match c.s.usize(4) {
                0 => parts.push(b"2:zz".to_vec()),
                1 => {
                    let k = if let Val::Bytes(_) = v { b"i1e".to_vec() } else { val };
                    parts.splice(at..at, [k, b"i1e".to_vec()]);
                }
                2 => {
                    let k: &[u8] = *c.s.pick(&[&b"3:a\xffb"[..], b"1:\x80", b"2:\xc3\x28", b"3:\xed\xa0\x80", b"2:\xc0\x80"]);
                    parts.splice(at..at, [k.to_vec(), b"i1e".to_vec()]);
                }
                // two faults of one cause
                _ => {
                    parts.splice(at..at, [b"le".to_vec(), b"i1e".to_vec()]);
                    parts.push(b"2:zz".to_vec());
                }
            }
            let bad = [b"d".to_vec(), parts.concat(), b"e".to_vec()].concat();
            (around(&mut c.s, &bad), vec![Error::ParseDict])
        }
        _ => {
            // the string is the last thing there is
            let inner: Vec<u8> = c.s.blob(20);
            let n = inner.len() as u64 + 1 + match c.s.usize(4) {
                0 => 0,
                1 => c.s.below(1000),
                2 => i64::MAX as u64 - inner.len() as u64 - 1,
                _ => c.s.below(1 << 40),
            };
            let mut t = vec![];
            for _ in 0..c.s.usize(4) {
                t.extend_from_slice(*c.s.pick(&[&b"l"[..], b"d1:k", b"li1e"]));
            }
            t.extend_from_slice(format!("{}:", n).as_bytes());
            t.extend_from_slice(&inner);
            (t, vec![Error::EOF])
        }
    };
    c.key(&doc);
    c.label(KINDS[kind]);
    c.nontrivial(doc.len() > 1);
    c.show(|| format!("{}: {} ({:?})", KINDS[kind], show(&doc), want));
    check(&doc, &want, KINDS[kind])
}
fn all_errors() -> Vec<(Error, io::ErrorKind)> {
    use io::ErrorKind::*;
    let mut v = vec![(Error::IO, Other), (Error::EOF, UnexpectedEof)];
    for e in [Error::ParseInt, Error::ParseBytes, Error::ParseString, Error::ParseList, Error::ParseDict, Error::DepthLimit, Error::ItemLimit] {
        v.push((e, InvalidData));
    }
    for b in 0..=255 {
        v.push((Error::InvalidChar(b), InvalidData));
        v.push((Error::ExpectedChar(b), InvalidData));
    }
    v
}
pub const B09: Prop = Prop {
    id: "B09",
    rule: "documents with one fault: cut between tokens, inside a string or a number, a stray byte, an end with nothing open, a malformed or out-of-range number or length, a dictionary with a missing value or an unfit key, a string longer than what is left, each inside containers with other values around it; decoded four ways. Every error converted to an input/output error. Non-trivial: over one byte long.",
    assumptions: &["documents with several faults and bytes after the document are left open", "a number cut right after its i may be reported either way"],
    quick: 400_000,
    thorough: 20_000_000,
    case: b09,
    phases: &[Phase {
        name: "errors converted",
        count: |_| all_errors().len() as u64,
        run: |c, i| {
            let (e, kind) = all_errors().swap_remove(i as usize);
            c.key(&i);
            c.nontrivial(true);
            let name = format!("{:?}", e);
            c.show(|| name.clone());
            ensure!(!e.to_string().is_empty(), "{} prints as nothing", name);
            let e = io::Error::from(e);
            ensure_eq!(e.kind(), kind, "the kind of {} as an input/output error", name);
            ensure!(!e.to_string().is_empty(), "{} as an input/output error prints as nothing", name);
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};
