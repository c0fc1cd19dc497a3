use engine::model;
use engine::{turns, ensure, ensure_eq, show, Ctx, Phase, Prop, R};
use torrent_rs::verif_hooks::str_utl;

// ---- S01 ------------------------------------------------------------------------------------------------------------

/// The definition: `+` is a space, `%` and two hexadecimal digits a byte, any other byte itself.
fn unescape(s: &[u8]) -> Option<Vec<u8>> {
    match s {
        [] => Some(vec![]),
        [b'%', a, b, ..] => {
            let mut v = model::unhex(&[*a, *b])?;
            v.extend(unescape_long(&s[3..])?);
            Some(v)
        }
        [b'%', ..] => None,
        [b'+', ..] => Some([&b" "[..], &unescape_long(&s[1..])?].concat()),
        [c, ..] => Some([&[*c][..], &unescape_long(&s[1..])?].concat()),
    }
}
/// The same by a loop, so that long texts need no stack.
fn unescape_long(s: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut s = s;
    while !s.is_empty() {
        let n = if s[0] == b'%' { 3 } else { 1 };
        if s.len() < n {
            return None;
        }
        v.extend(if n == 3 {
            model::unhex(&s[1..3])?
        } else if s[0] == b'+' {
            vec![b' ']
        } else {
            vec![s[0]]
        });
        s = &s[n..];
    }
    Some(v)
}
fn s01_one(s: &[u8]) -> Result<bool, String> {
    let want = unescape(s);
    let got = str_utl::unescape_bytes(s).ok();
    ensure_eq!(got, want, "unescaping {}", show(s));
    let text = want.clone().and_then(|v| String::from_utf8(v).ok());
    ensure_eq!(str_utl::unescape_string(s).ok(), text, "unescaping the text {}", show(s));
    Ok(want.is_some())
}
fn s01(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let m = c.s.blob(200);
        let m = model::percent(&mut c.s, &m, true);
        return turns::twins(c, m, |b| s01_one(b).map(|_| ()));
    }
    let data = if c.s.bool() { c.s.text(200).into_bytes() } else { c.s.blob(400) };
    // any spelling of `data`
    let mut t = vec![];
    for &b in &data {
        match c.s.weighted(&[3, 1, 1]) {
            0 if b != b'%' && b != b'+' => t.push(b),
            1 => t.extend_from_slice(format!("%{:02X}", b).as_bytes()),
            _ if b == b' ' && c.s.bool() => t.push(b'+'),
            _ => {
                let f = format!("%{:02x}", b);
                let mut f = f.into_bytes();
                if c.s.chance(1, 4) {
                    f[1] = f[1].to_ascii_uppercase();
                }
                t.extend_from_slice(&f);
            }
        }
    }
    c.show(|| format!("{} spelled {}", show(&data), show(&t)));
    c.nontrivial(t.contains(&b'%') || t.contains(&b'+'));
    ensure_eq!(str_utl::unescape_bytes(&t).ok(), Some(data.clone()), "unescaping {}", show(&t));
    s01_one(&t)?;
    c.label_if(std::str::from_utf8(&data).is_ok(), "valid UTF-8");
    // damaged and cut
    if !t.is_empty() {
        let n = c.s.usize(t.len());
        s01_one(&t[..n])?;
        let i = c.s.usize(t.len());
        t[i] = *c.s.pick(b"%+gG0aF \xff@`:/");
        c.label("damaged");
        let ok = s01_one(&t)?;
        c.label_if(!ok, "rejected");
    }
    c.key(&t);
    Ok(())
}
pub const S01: Prop = Prop {
    id: "S01",
    rule: "random text and binary data in a random mix of raw, upper- and lower-case percent-encoded and plus spelling, then cut and damaged; every pair of bytes after a percent sign, and every cut of it; texts of up to 262145, some to 2^24 bytes; every Unicode character, escaped, plain and damaged. Non-trivial: at least one escape or plus.",
    assumptions: &[],
    quick: 1_200_000,
    thorough: 10_000_000,
    case: s01,
    phases: &[Phase {
        name: "every character",
        count: |_| model::CHAR_BLOCKS,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            for x in model::chars_block(i) {
                let e = model::percent_all(&x.to_string());
                for t in [x.to_string(), format!("a{}+{}", x, x), format!("%2{}b%25", x), format!("%{}2", x), e.clone(), format!("{}{}", e, x), e[..e.len() - 1].to_string(), e[3..].to_string(), format!("{}+", &e[..e.len() - 3])] {
                    s01_one(t.as_bytes())?;
                }
            }
            Ok(())
        },
    }, Phase {
        name: "every escape",
        count: |_| 65536 + 65536,
        run: |c, i| {
            let (a, b) = ((i >> 8) as u8, i as u8);
            c.nontrivial(true);
            c.key(&i);
            let t = if i < 65536 { vec![b'%', a, b] } else { vec![b'a', a, b, b'b'] };
            c.show(|| show(&t));
            s01_one(&t)?;
            s01_one(&t[..2])?;
            s01_one(&t[..1])?;
            Ok(())
        },
    }, Phase {
        name: "long texts",
        count: |t| model::sized_count(6, if t { 50 } else { 4 }),
        run: |c, i| {
            let (n, kind) = model::sized(i, 6, if c.thorough { 50 } else { 4 }, usize::MAX);
            let n = n + c.s.usize(3);
            let seed = c.s.usize(256);
            let data: Vec<u8> = (0..n).map(|k| if kind == 5 { b'a' + ((k + seed) % 26) as u8 } else { (k * 7 + k / 256 + seed) as u8 }).collect();
            let mut t = vec![];
            for (k, &b) in data.iter().enumerate() {
                if kind == 4 && k % 3 > 0 && b != b'%' && b != b'+' || kind == 5 && k + 1 < n {
                    t.push(b)
                } else if b == b' ' && kind % 2 == 0 {
                    t.push(b'+')
                } else if kind < 2 {
                    t.extend_from_slice(format!("%{:02x}", b).as_bytes())
                } else {
                    t.extend_from_slice(format!("%{:02X}", b).as_bytes())
                }
            }
            c.key(&t);
            c.nontrivial(true);
            c.label("long");
            c.show(|| format!("{} spelled {}", show(&data), show(&t)));
            ensure!(str_utl::unescape_bytes(&t).ok().as_ref() == Some(&data), "unescaping {}", show(&t));
            s01_one(&t)?;
            s01_one(&t[..t.len() - 1])?;
            s01_one(&t[..t.len() - 2])?;
            let k = c.s.usize(t.len());
            t[k] = *c.s.pick(b"%+gG0aF \xff@`:/");
            s01_one(&t)?;
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- S02 ------------------------------------------------------------------------------------------------------------

/// Case changes and `1` for `I`.
fn respell(c: &mut Ctx, t: &str) -> Vec<u8> {
    let style = c.s.usize(4);
    t.bytes()
        .map(|b| match style {
            0 => b,
            1 => b.to_ascii_lowercase(),
            _ => {
                if b == b'I' && c.s.bool() {
                    b'1'
                } else if c.s.bool() {
                    b.to_ascii_lowercase()
                } else {
                    b
                }
            }
        })
        .collect()
}
fn s02_bounds(t: &[u8]) -> R {
    let v = str_utl::base32_decode(t);
    ensure!(v.len() <= (t.len() + 7) / 8 * 5, "{} decodes to {} bytes", show(t), v.len());
    if t.iter().any(|b| !b.is_ascii_alphabetic() && !b"1234567=".contains(b)) {
        ensure!(v.is_empty(), "{} has a character outside the alphabet but decodes to {}", show(t), show(&v));
        return Ok(());
    }
    // a length an encoding can have: the whole bytes which the digits' bits form
    if !t.contains(&b'=') && [0, 2, 4, 5, 7].contains(&(t.len() % 8)) {
        let (mut want, mut acc, mut bits) = (vec![], 0u32, 0);
        for b in t {
            let d = match b.to_ascii_uppercase() {
                b'1' => 8,
                d @ b'2'..=b'7' => d - b'2' + 26,
                d => d - b'A',
            };
            acc = (acc << 5 | d as u32) & 0xfff;
            bits += 5;
            if bits >= 8 {
                bits -= 8;
                want.push((acc >> bits) as u8);
            }
        }
        ensure_eq!(v, want, "decoding {}", show(t));
    }
    // groups are independent of what came before them
    if t.len() > 8 {
        let cut = (t.len() - 1) / 8 * 8;
        let mut parts = str_utl::base32_decode(&t[..cut]);
        parts.extend(str_utl::base32_decode(&t[cut..]));
        ensure_eq!(v, parts, "{} decoded at once and in two parts", show(t));
    }
    Ok(())
}
fn s02(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let m = c.s.blob(200);
        return turns::twins(c, model::base32(&m).into_bytes(), |b| {
            s02_bounds(b)?;
            ensure_eq!(str_utl::base32_decode(model::base32(b).as_bytes()), b, "decoding the encoding of {}", show(b));
            Ok(())
        });
    }
    if c.s.chance(3, 5) {
        let data = c.s.blob(600);
        let t = respell(c, &model::base32(&data));
        let mut padded = t.clone();
        while padded.len() % 8 != 0 {
            padded.push(b'=');
        }
        c.key(&(&data, &t));
        c.nontrivial(!data.is_empty());
        c.label_if(data.len() % 5 == 0, "no padding needed");
        c.label_if(t.contains(&b'1'), "1 for I");
        c.show(|| format!("{} as {}", show(&data), show(&padded)));
        ensure_eq!(str_utl::base32_decode(&t), data, "decoding {}", show(&t));
        ensure_eq!(str_utl::base32_decode(&padded), data, "decoding {}", show(&padded));
        if !t.is_empty() {
            let mut d = padded;
            let i = c.s.usize(d.len());
            d[i] = c.s.byte();
            s02_bounds(&d)?;
        }
        Ok(())
    } else {
        let n = c.s.size(100);
        let digits = c.s.chance(1, 2);
        let t: Vec<u8> = (0..n)
            .map(|_| {
                if digits {
                    *c.s.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz1234567")
                } else if c.s.chance(1, 30) {
                    c.s.byte()
                } else {
                    *c.s.pick(b"ABCIYZabciyz1234567=====0189")
                }
            })
            .collect();
        c.key(&t);
        c.nontrivial(t.len() > 1);
        c.label("arbitrary text");
        c.show(|| show(&t));
        s02_bounds(&t)
    }
}
pub const S02: Prop = Prop {
    id: "S02",
    rule: "encodings of random data, padded and not, in mixed case and with 1 for I; arbitrary texts over and around the alphabet; every byte at every position of a group; every one- and two-byte datum; data of every length up to 700 and some up to 262145, some to 2^24. Non-trivial: non-empty.",
    assumptions: &["what a group that is no encoding (of a length no encoding has, or with padding inside) decodes to is left open, except that it depends on that group alone"],
    quick: 3_000_000,
    thorough: 10_000_000,
    case: s02,
    phases: &[
        Phase {
            name: "every byte at every position",
            count: |_| 256 * 24,
            run: |c, i| {
                let (b, at) = (i as u8, (i / 256) as usize);
                let mut t = b"MZXW6YTBMZXW6YTBMZXW6YTB".to_vec();
                t[at] = b;
                c.key(&t);
                c.nontrivial(true);
                c.show(|| show(&t));
                s02_bounds(&t)?;
                for n in at + 1..t.len() {
                    s02_bounds(&t[..n])?;
                }
                let d = (b.to_ascii_uppercase() as char).to_string();
                if let Some(p) = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567".find(&d) {
                    // 5 bits at 5 * at
                    let mut want = b"foobafoobafooba".to_vec();
                    for k in 0..5 {
                        let bit = 5 * at + k;
                        let m = 0x80u8 >> (bit % 8);
                        if p >> (4 - k) & 1 == 1 {
                            want[bit / 8] |= m
                        } else {
                            want[bit / 8] &= !m
                        }
                    }
                    ensure_eq!(str_utl::base32_decode(&t), want, "decoding {}", show(&t));
                }
                Ok(())
            },
        },
        Phase {
            name: "long data",
            count: |t| (700 + model::sizes().len() * 5) as u64 * if t { 30 } else { 3 } + model::HUGE.len() as u64 * 5,
            run: |c, i| {
                // the huge ones first
                let huge = model::HUGE.len() * 5;
                let n = match (i as usize).checked_sub(huge) {
                    None => model::HUGE[i as usize / 5] + i as usize % 5,
                    Some(i) => match i % (700 + model::sizes().len() * 5) {
                        i if i < 700 => i,
                        i => model::sizes()[(i - 700) / 5] + i % 5,
                    },
                };
                let seed = c.s.usize(256);
                let data: Vec<u8> = (0..n).map(|k| (k * 11 + k / 256 * 3 + seed) as u8).collect();
                let t = respell(c, &model::base32(&data));
                let mut p = t.clone();
                while p.len() % 8 != 0 {
                    p.push(b'=');
                }
                c.key(&t);
                c.nontrivial(n > 0);
                c.label("long");
                c.show(|| format!("{} as {}", show(&data), show(&p)));
                for t in [&t, &p] {
                    ensure!(str_utl::base32_decode(t) == data, "decoding {}", show(t));
                }
                if !p.is_empty() {
                    let k = c.s.usize(p.len());
                    p[k] = *c.s.pick(b"089!@[`{ \0\xff");
                    s02_bounds(&p)?;
                }
                Ok(())
            },
        },
        Phase {
            name: "all data of up to two bytes",
            count: |_| 65536 + 256,
            run: |c, i| {
                let d = if i < 65536 { vec![(i >> 8) as u8, i as u8] } else { vec![i as u8] };
                let t = model::base32(&d);
                c.key(&d);
                c.nontrivial(true);
                c.show(|| t.clone());
                ensure_eq!(str_utl::base32_decode(t.as_bytes()), d, "decoding {}", t);
                let mut p = t.to_lowercase();
                while p.len() % 8 != 0 {
                    p.push('=');
                }
                ensure_eq!(str_utl::base32_decode(p.as_bytes()), d, "decoding {}", p);
                Ok(())
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- S03 ------------------------------------------------------------------------------------------------------------

fn s03_split(s: &[u8], sep: u8) -> R {
    let (a, b) = str_utl::split_string(s, sep);
    let d = || format!("splitting {} at {:?} into {} and {}", show(s), sep as char, show(a), show(b));
    // together with the separator they form the input
    let whole = a.len() + b.len() == s.len() && [a, b].concat() == s && b.is_empty();
    let split = a.len() + 1 + b.len() == s.len() && [a, &[sep][..], b].concat() == s;
    ensure!(whole || split, "{}: the parts are not the input", d());
    // where the quoted part ends
    let quoted = sep != b'"' && s.first() == Some(&b'"');
    let end = if quoted { s[1..].iter().position(|&c| c == b'"').map(|p| p + 2) } else { Some(0) };
    match end {
        Some(e) => match s[e..].iter().position(|&c| c == sep) {
            Some(p) => ensure!(split && a == &s[..e + p], "{}: expected the split at {}", d(), e + p),
            None => ensure!(whole, "{}: there is no separator to split at", d()),
        },
        // a quote that is never closed: the whole input is quoted (a separator in the last place is left open)
        None => ensure!(whole || (split && b.is_empty()), "{}: split inside an unclosed quote", d()),
    }
    Ok(())
}
fn s03_trim(s: &[u8]) -> R {
    let blank = |c: &u8| b" \r\n\t".contains(c);
    let mut want = s.to_vec();
    while want.last().map_or(false, |c| blank(c)) {
        want.pop();
    }
    let lead = want.iter().take_while(|c| blank(c)).count();
    want.drain(..lead);
    ensure!(str_utl::trim(s) == want, "trimming {} gives {}", show(s), show(str_utl::trim(s)));
    Ok(())
}
fn s03_int(s: &[u8]) -> R {
    ensure_eq!(str_utl::parse_int(s).ok().map(|v| v as i64), model::number(s, true), "parsing {}", show(s));
    Ok(())
}
fn s03(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let (n, kind) = (c.s.size(60), c.s.usize(3));
        let m: Vec<u8> = (0..n).map(|_| *c.s.pick([&b"ab,, \"\";x"[..], b"  \t\r\nab\x0b", b"0123456789"][kind])).collect();
        return turns::twins(c, m, |b| {
            s03_split(b, b',')?;
            s03_split(b, b' ')?;
            s03_trim(b)?;
            s03_int(b)
        });
    }
    match c.s.usize(3) {
        0 => {
            let n = c.s.size(60);
            let s: Vec<u8> = (0..n).map(|_| if c.s.chance(1, 12) { c.s.byte() } else { *c.s.pick(b"ab,, \"\";x") }).collect();
            let mut s = s;
            if c.s.bool() {
                s.insert(0, b'"');
            }
            let sep = if c.s.chance(1, 6) { c.s.byte() } else { *c.s.pick(b", \";a") };
            c.key(&(&s, sep));
            c.label("split");
            c.nontrivial(s.contains(&sep));
            c.show(|| format!("split {} at {:?}", show(&s), sep as char));
            s03_split(&s, sep)
        }
        1 => {
            let n = c.s.size(60);
            let s: Vec<u8> = (0..n).map(|_| if c.s.chance(1, 12) { c.s.byte() } else { *c.s.pick(b"  \t\r\nab\x0b\x0c\0\xa0\x85") }).collect();
            c.key(&s);
            c.label("trim");
            c.nontrivial(s.iter().any(|c| b" \r\n\t".contains(c)));
            c.show(|| format!("trim {}", show(&s)));
            s03_trim(&s)
        }
        _ => {
            let v = c.s.int();
            let mut t = v.to_string().into_bytes();
            match c.s.usize(5) {
                0 => t.insert(0, b'+'),
                1 => {
                    let z = c.s.usize(25);
                    let at = usize::from(v < 0);
                    t.splice(at..at, std::iter::repeat(b'0').take(z));
                }
                2 => {
                    let i = c.s.usize(t.len() + 1);
                    t.insert(i, *c.s.pick(b"0123456789-+ a_.\xd9\xa0\xff"));
                }
                3 => {
                    let i = c.s.usize(t.len());
                    t[i] = c.s.byte();
                }
                _ => {}
            }
            c.key(&t);
            c.label("number");
            c.nontrivial(t.len() > 1);
            c.show(|| format!("parse {}", show(&t)));
            s03_int(&t)
        }
    }
}
/// Everything there is about one text.
pub fn all(b: &[u8]) -> R {
    s01_one(b)?;
    s02_bounds(b)?;
    s03_split(b, b',')?;
    s03_trim(b)?;
    s03_int(b)
}
pub const S03: Prop = Prop {
    id: "S03",
    rule: "random texts of separators, quotes and blanks split and trimmed, integers in and out of range spelled in many ways; all texts up to 7 characters over a quote, a separator and a letter; texts and numerals of up to 262145, some to 2^24 characters; every byte classified; every Unicode character, escaped, plain and damaged. Non-trivial: a separator or blank present, or a number of two characters.",
    assumptions: &["a separator in the last place of an unclosed leading quote is left open"],
    quick: 6_000_000,
    thorough: 20_000_000,
    case: s03,
    phases: &[
        Phase {
            name: "every character",
            count: |_| model::CHAR_BLOCKS,
            run: |c, i| {
                c.key(&i);
                c.nontrivial(true);
                c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
                for x in model::chars_block(i) {
                    for t in [format!("{}", x), format!("{}1", x), format!("1{}", x), format!("-{}1", x), format!("1{}2", x), format!("-1{}", x)] {
                        s03_int(t.as_bytes())?;
                    }
                    for t in [format!("{}a{}", x, x), format!(" {} ", x), format!("\t{}a {}\n", x, x), format!("{} ", x), format!(" {}", x)] {
                        s03_trim(t.as_bytes())?;
                    }
                    for t in [format!("a{},{}b", x, x), format!("{}\"a,b\",c", x), format!("\"{},\",b", x), format!("\"a\"{},b", x), format!("\"a{},b", x)] {
                        s03_split(t.as_bytes(), b',')?;
                    }
                }
                Ok(())
            },
        },
        Phase {
            name: "short texts",
            count: |t| 4 * if t { 349_525 } else { 21_845 },
            run: |c, i| {
                let sep = b", \"a"[(i % 4) as usize];
                let mut k = i / 4;
                let (mut n, mut block) = (0, 1);
                while k >= block {
                    k -= block;
                    block *= 4;
                    n += 1;
                }
                let mut s = vec![];
                for _ in 0..n {
                    s.push(b"\", a"[(k % 4) as usize]);
                    k /= 4;
                }
                c.key(&(&s, sep));
                c.nontrivial(s.contains(&sep));
                c.show(|| format!("{} at {:?}", show(&s), sep as char));
                s03_split(&s, sep)?;
                s03_trim(&s)
            },
        },
        Phase {
            name: "long texts and numbers",
            count: |t| model::sized_count(9, if t { 100 } else { 6 }),
            run: |c, i| {
                let (n, kind) = model::sized(i, 9, if c.thorough { 100 } else { 6 }, usize::MAX);
                let n = n + c.s.usize(3);
                let m = c.s.usize(n + 1);
                let sep = *c.s.pick(b", \";a");
                let fill: Vec<u8> = (0..n).map(|k| b"bcdefgh"[k % 7]).collect();
                let t = match kind {
                    // a separator, or a quoted part with separators, among other characters
                    0 => [&fill[..m], &[sep], &fill[m..]].concat(),
                    1 => [b"\"", &fill[..m / 2], &[sep], &fill[m / 2..m], b"\"", &fill[m..], &[sep], b"x,\"y"].concat(),
                    2 => [b"\"", &fill[..], &[sep], &fill[..m]].concat(),
                    // blanks around and inside
                    3 => [&vec![*c.s.pick(b" \r\n\t"); m][..], b"a  b", &vec![*c.s.pick(b" \r\n\t\x0b"); n - m]].concat(),
                    4 => vec![*c.s.pick(b" \r\n\t"); n],
                    5 => [b"a", &vec![b' '; n][..], b"b"].concat(),
                    // numbers
                    6 => [*c.s.pick(&[&b""[..], b"-", b"+"]), &vec![b'0'; n], c.s.int().unsigned_abs().to_string().as_bytes()].concat(),
                    7 => [*c.s.pick(&[&b""[..], b"-", b"+"]), b"1", &vec![b'0' + c.s.usize(10) as u8; n]].concat(),
                    _ => [&vec![b'0'; m][..], &[*c.s.pick(b"-+ a_.")], &vec![b'0'; n - m]].concat(),
                };
                c.key(&(&t, sep));
                c.nontrivial(true);
                c.label("long");
                c.show(|| format!("{} with {:?}", show(&t), sep as char));
                s03_split(&t, sep)?;
                s03_trim(&t)?;
                s03_int(&t)
            },
        },
        Phase {
            name: "bytes",
            count: |_| 256,
            run: |c, i| {
                let b = i as u8;
                c.key(&b);
                c.nontrivial(true);
                c.show(|| format!("byte {:#x}", b));
                ensure_eq!(str_utl::to_upper(b), b.to_ascii_uppercase(), "upper case of {:#x}", b);
                ensure_eq!(str_utl::is_digit(b), b.is_ascii_digit(), "digit {:#x}", b);
                ensure_eq!(str_utl::is_whitespace(b), b" \r\n\t".contains(&b), "blank {:#x}", b);
                for t in [vec![b], vec![b, b'1'], vec![b'1', b], vec![b'-', b], vec![b'+', b], vec![b'1', b, b'1']] {
                    s03_int(&t)?;
                    s03_trim(&t)?;
                }
                Ok(())
            },
        },
        Phase {
            name: "numbers at the ends of the range",
            count: |_| 4000,
            run: |c, i| {
                // 1000 numbers around each of the two ends, with leading zeros in half of them
                let k = (i / 2 % 1000) as i128 - 500;
                let v = if i < 2000 { i64::MAX as i128 + k } else { i64::MIN as i128 + k };
                let t = match (i % 2, v < 0) {
                    (0, _) => v.to_string(),
                    (_, false) => format!("+000{}", v),
                    (_, true) => format!("-000{}", -v),
                };
                c.key(&t);
                c.nontrivial(true);
                c.show(|| t.clone());
                s03_int(t.as_bytes())
            },
        },
    ],
    terminates: true,
    extra: None,
};
