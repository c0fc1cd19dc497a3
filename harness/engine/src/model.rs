//! Independent reference definitions: no code of /repo is used here.
use crate::Src;
use std::collections::BTreeMap;

// ---- bencode ----------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, PartialOrd)]
pub enum Val {
    Int(i64),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Dict(BTreeMap<String, Val>),
}
use Val::*;

impl Val {
    pub fn str(s: &str) -> Val {
        Bytes(s.as_bytes().to_vec())
    }
    /// The canonical encoding.
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Int(n) => out.extend_from_slice(format!("i{}e", n).as_bytes()),
            Bytes(b) => enc_bytes(b, out),
            List(l) => {
                out.push(b'l');
                for v in l {
                    v.encode(out);
                }
                out.push(b'e');
            }
            Dict(d) => {
                out.push(b'd');
                let mut keys: Vec<&String> = d.keys().collect();
                keys.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
                for k in keys {
                    enc_bytes(k.as_bytes(), out);
                    d[k].encode(out);
                }
                out.push(b'e');
            }
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        self.encode(&mut v);
        v
    }
    pub fn depth(&self) -> usize {
        match self {
            List(l) => 1 + l.iter().map(|v| v.depth()).max().unwrap_or(0),
            Dict(d) => 1 + d.values().map(|v| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            List(l) => 1 + l.iter().map(|v| v.count()).sum::<usize>(),
            Dict(d) => 1 + d.values().map(|v| v.count() + 1).sum::<usize>(),
            _ => 1,
        }
    }
}
fn enc_bytes(b: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(format!("{}:", b.len()).as_bytes());
    out.extend_from_slice(b);
}

/// A decimal number in i64 range, optionally signed, by hand.
pub fn number(s: &[u8], signed: bool) -> Option<i64> {
    let (neg, d) = match s.first() {
        Some(b'-') if signed => (true, &s[1..]),
        Some(b'+') if signed => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || d.iter().any(|c| !(b'0'..=b'9').contains(c)) {
        return None;
    }
    let mut v: i128 = 0;
    for &c in d {
        v = v * 10 + (c - b'0') as i128;
        if v > 1 << 70 {
            return None;
        }
    }
    if neg {
        v = -v;
    }
    if v < i64::MIN as i128 || v > i64::MAX as i128 {
        None
    } else {
        Some(v as i64)
    }
}

/// One token of the input: position and number of containers open before it.
pub struct Token {
    pub at: usize,
    pub open: usize,
}

/// Recursive-descent reference decoder: the whole input must be one document.
pub struct Parser<'a> {
    b: &'a [u8],
    at: usize,
    pub tokens: Vec<Token>,
}
pub fn decode(b: &[u8]) -> Option<Val> {
    decode_tokens(b).map(|(v, _)| v)
}
pub fn decode_tokens(b: &[u8]) -> Option<(Val, Vec<Token>)> {
    let mut p = Parser { b, at: 0, tokens: vec![] };
    let v = p.value(0)?;
    if p.at == b.len() {
        Some((v, p.tokens))
    } else {
        None
    }
}
impl Parser<'_> {
    fn value(&mut self, open: usize) -> Option<Val> {
        let c = *self.b.get(self.at)?;
        self.tokens.push(Token { at: self.at, open });
        match c {
            b'i' => {
                let end = self.at + 1 + self.b[self.at + 1..].iter().position(|&c| c == b'e')?;
                let n = number(&self.b[self.at + 1..end], true)?;
                self.at = end + 1;
                Some(Int(n))
            }
            b'0'..=b'9' => {
                let colon = self.at + self.b[self.at..].iter().position(|&c| c == b':')?;
                let n = number(&self.b[self.at..colon], false)?;
                let start = colon + 1;
                if n as u64 > (self.b.len() - start) as u64 {
                    return None;
                }
                let s = self.b[start..start + n as usize].to_vec();
                self.at = start + n as usize;
                Some(Bytes(s))
            }
            b'l' => {
                self.at += 1;
                let mut l = vec![];
                while *self.b.get(self.at)? != b'e' {
                    l.push(self.value(open + 1)?);
                }
                self.at += 1;
                Some(List(l))
            }
            b'd' => {
                self.at += 1;
                let mut d = BTreeMap::new();
                while *self.b.get(self.at)? != b'e' {
                    let k = match self.value(open + 1)? {
                        Bytes(k) => String::from_utf8(k).ok()?,
                        _ => return None,
                    };
                    if *self.b.get(self.at)? == b'e' {
                        return None;
                    }
                    let v = self.value(open + 1)?;
                    d.entry(k).or_insert(v);
                }
                self.at += 1;
                Some(Dict(d))
            }
            _ => None,
        }
    }
}

/// Random values of bounded depth.
pub fn val(s: &mut Src, depth: usize) -> Val {
    let w: &[u32] = if depth == 0 { &[4, 5] } else { &[4, 5, 3, 4] };
    match s.weighted(w) {
        0 => Int(s.int()),
        1 => Bytes(if s.chance(1, 12) { vec![] } else { s.blob(if depth > 2 { 70_000 } else { 300 }) }),
        2 => {
            if s.chance(1, 40) {
                let v = val(s, 0);
                return List(vec![v; s.size(1000)]);
            }
            if s.chance(1, 100) {
                let (n, k) = (s.size(3000) as i64, s.int());
                return List((0..n).map(|i| Int(k.wrapping_add(i))).collect());
            }
            let avg = s.usize(6);
            List(s.list(60, avg, |s| val(s, depth - 1)))
        }
        _ => {
            if s.chance(1, 100) {
                let (n, k) = (s.size(3000) as i64, s.text(3));
                return Dict((0..n).map(|i| (format!("{}{}", k, i), Int(i))).collect());
            }
            let avg = s.usize(6);
            Dict(s.list(60, avg, |s| (key(s), val(s, depth - 1))).into_iter().collect())
        }
    }
}
pub fn container(s: &mut Src, depth: usize) -> Val {
    let v = val(s, depth);
    match v {
        List(_) | Dict(_) => v,
        v => {
            if s.bool() {
                List(vec![v])
            } else {
                Dict([(key(s), v)].into_iter().collect())
            }
        }
    }
}
pub fn key(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 2, 1, 1]) {
        0 => s.pick(&["a", "b", "c", "d", "i", "l", "e", "", "aa", "ab", "A", "announce", "info", "length", "0", "1:", "é"]).to_string(),
        1 => {
            let n = s.usize(6);
            (0..n).map(|_| (b'a' + s.byte() % 4) as char).collect()
        }
        2 => s.text(12),
        3 => s.literal_text(300),
        _ => s.text(300),
    }
}

/// Writes a value as a document, not necessarily canonically: unsorted and repeated keys, signs, leading zeros.
pub fn spell(s: &mut Src, v: &Val, sloppy: bool, out: &mut Vec<u8>) {
    match v {
        Int(n) => {
            out.push(b'i');
            let z = if sloppy && s.chance(1, 6) { zeros(s) } else { 0 };
            if *n < 0 {
                out.push(b'-');
            } else if sloppy && s.chance(1, 8) {
                out.push(*s.pick(if *n == 0 { b"+-" } else { b"++" }));
            }
            out.extend(std::iter::repeat(b'0').take(z));
            out.extend_from_slice(n.unsigned_abs().to_string().as_bytes());
            out.push(b'e');
        }
        Bytes(b) => spell_str(s, b, sloppy, out),
        List(l) => {
            out.push(b'l');
            for v in l {
                spell(s, v, sloppy, out);
            }
            out.push(b'e');
        }
        Dict(d) => {
            out.push(b'd');
            let mut e: Vec<(&String, &Val)> = d.iter().collect();
            if sloppy {
                for i in (1..e.len()).rev() {
                    let j = s.usize(i + 1);
                    e.swap(i, j);
                }
            }
            for (i, (k, v)) in e.iter().enumerate() {
                spell_str(s, k.as_bytes(), sloppy, out);
                spell(s, v, sloppy, out);
                if sloppy && s.chance(1, 12) {
                    // repeat an earlier key with another value
                    let j = s.usize(i + 1);
                    spell_str(s, e[j].0.as_bytes(), sloppy, out);
                    let v = val(s, 1);
                    spell(s, &v, sloppy, out);
                }
            }
            out.push(b'e');
        }
    }
}
fn spell_str(s: &mut Src, b: &[u8], sloppy: bool, out: &mut Vec<u8>) {
    if sloppy && s.chance(1, 10) {
        let z = zeros(s);
        out.extend(std::iter::repeat(b'0').take(z));
    }
    enc_bytes(b, out);
}
fn zeros(s: &mut Src) -> usize {
    match s.usize(16) {
        15 => s.range(1, 5000),
        14 => s.range(1, 300),
        _ => s.range(1, 25),
    }
}

/// Sizes around those at which a counter, a length or a buffer could turn over.
pub const SIZES: [usize; 24] = [
    127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4096, 9999, 10_000, 10_001, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 99_999, 100_000, 131_072, 262_145,
];
/// Those and the numbers the code under test mentions.
pub fn sizes() -> &'static [usize] {
    static ALL: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| SIZES.iter().chain(&crate::dict::get().sizes).copied().collect())
}
/// Sizes around the next such places, for a few cases.
pub const HUGE: [usize; 8] = [999_999, 1_000_001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, 10_000_001, (1 << 24) + 1];
/// Cases for `sized`: every size `times` times for each of `kinds`, then every huge size (up to `most`) once for each.
pub fn sized_count(kinds: usize, times: u64) -> u64 {
    (sizes().len() * kinds) as u64 * times + (HUGE.len() * kinds) as u64
}
/// Size and kind of case `i` of those.
pub fn sized(i: u64, kinds: usize, times: u64, most: usize) -> (usize, usize) {
    let all = (sizes().len() * kinds) as u64 * times;
    match i.checked_sub(all) {
        Some(i) => (HUGE[i as usize % HUGE.len()].min(most), i as usize / HUGE.len() % kinds),
        None => (sizes()[i as usize % sizes().len()], i as usize / sizes().len() % kinds),
    }
}
pub fn large_count() -> u64 {
    (sizes().len() * 9 + HUGE.len() * 2) as u64
}
/// Value `i` of a fixed set of large values: wide lists and dictionaries, long strings and keys, deep nests.
pub fn large(i: u64) -> (&'static str, Val) {
    if let Some(i) = (i as usize).checked_sub(sizes().len() * 9) {
        let n = HUGE[i % HUGE.len()];
        return if i < HUGE.len() {
            ("huge string", Dict([("k".into(), Bytes((0..n).map(|i| (i % 251) as u8).collect())), ("l".into(), Int(2))].into_iter().collect()))
        } else {
            ("huge list", List((0..n.min((1 << 20) + 5) as i64).map(|i| if i % 5 == 0 { Bytes(vec![]) } else { Int(i % 10) }).collect()))
        };
    }
    let n = sizes()[i as usize % sizes().len()];
    match i as usize / sizes().len() {
        0 => ("wide list of integers", List((0..n as i64).map(Int).collect())),
        1 => ("wide list of strings", List((0..n).map(|i| Bytes(vec![b'a' + (i % 26) as u8; i % 5])).collect())),
        2 => ("wide dictionary", Dict((0..n).map(|i| (format!("{:x}", i), Int(i as i64))).collect())),
        3 => ("long string", Bytes((0..n).map(|i| (i % 251) as u8).collect())),
        4 => ("very long string", List(vec![Bytes((0..n * 16).map(|i| b'a' + (i % 23) as u8).collect()), Int(1)])),
        5 => ("long key", Dict([("k".repeat(n), Int(1)), ("l".into(), Int(2))].into_iter().collect())),
        6 => {
            let m = n.min(3000 + n % 7);
            let mut v = List(vec![Int(n as i64)]);
            for i in 0..m {
                v = if i % 3 == 2 { Dict([("k".into(), v), ("m".into(), Int(i as i64))].into_iter().collect()) } else { List(vec![v, Int(i as i64)]) };
            }
            ("deep nest", v)
        }
        7 => ("list of containers", List((0..n / 2).map(|i| if i % 2 == 0 { List(vec![Int(i as i64)]) } else { Dict([("".into(), Bytes(vec![]))].into_iter().collect()) }).collect())),
        _ => ("list of dictionaries of lists", {
            let m = (n as f64).sqrt() as usize;
            List((0..m).map(|i| Dict([("x".into(), List((0..m as i64).map(Int).collect())), ("y".into(), Int(i as i64))].into_iter().collect())).collect())
        }),
    }
}

/// The value in another form: inside a list or a dictionary, as its own encoding, its entries in a list, its first entry alone.
pub fn misplaced(s: &mut Src, v: Val) -> Val {
    match s.usize(8) {
        0 => Val::List(vec![v]),
        1 => Val::List(vec![val(s, 0), v]),
        2 => Val::List(vec![v, val(s, 0)]),
        3 => Val::Bytes(v.to_vec()),
        4 => {
            let k = s.pick(&["", "a", "r", "q", "t", "v", "info", "dht", "settings", "state", "data", "0"]).to_string();
            Val::Dict([(k, v)].into_iter().collect())
        }
        5 => match v {
            Val::Dict(d) => Val::List(d.into_iter().flat_map(|(k, v)| [Val::Bytes(k.into_bytes()), v]).collect()),
            Val::List(l) => Val::Dict(l.into_iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect()),
            Val::Bytes(b) => Val::List(b.into_iter().take(60).map(|x| Val::Int(x as i64)).collect()),
            Val::Int(n) => Val::Bytes(n.to_string().into_bytes()),
        },
        6 => match v {
            Val::Dict(d) => d.into_iter().next().map_or(Val::Int(0), |(_, v)| v),
            Val::List(l) => l.into_iter().next().unwrap_or(Val::Int(0)),
            Val::Bytes(b) => std::str::from_utf8(&b).ok().and_then(|t| t.trim().parse().ok()).map_or(Val::Dict(Default::default()), Val::Int),
            Val::Int(n) => Val::List(vec![Val::Int(n)]),
        },
        _ => match v {
            Val::Dict(d) => Val::List(d.into_iter().map(|(k, v)| Val::Dict([(k, v)].into_iter().collect())).collect()),
            v => Val::List(vec![Val::List(vec![v])]),
        },
    }
}
/// The same, done to the value or to something inside it.
pub fn misplace(s: &mut Src, v: &mut Val) {
    let inner = match v {
        Val::List(l) if !l.is_empty() && !s.chance(1, 3) => {
            let i = s.usize(l.len());
            l.get_mut(i)
        }
        Val::Dict(d) if !d.is_empty() && !s.chance(1, 3) => {
            let i = s.usize(d.len());
            d.values_mut().nth(i)
        }
        _ => None,
    };
    match inner {
        Some(x) => misplace(s, x),
        None => {
            let old = std::mem::replace(v, Val::Int(0));
            *v = misplaced(s, old);
        }
    }
}
/// Random damage: truncation, byte edits, insertions, splices.
pub fn damage(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.usize(3);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let i = s.usize(b.len());
        match s.weighted(&[4, 4, 4, 2, 2, 2, 1, 1]) {
            0 => b.truncate(i),
            1 => b[i] = *s.pick(b"dlie0123456789:-+ \0\xffa"),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, *s.pick(b"dlie0123456789:-+ \0\xffa")),
            4 => b.push(*s.pick(b"dlie0123456789:-+ \0\xffa")),
            5 => b[i] = s.byte(),
            6 => {
                let j = i + s.usize(b.len() - i);
                let part = b[i..j].to_vec();
                let at = s.usize(b.len());
                b.splice(at..at, part);
            }
            _ => {
                let t = s.pick(&["99999999999999999999:", "9223372036854775807:", "9223372036854775808:", "4294967296:", "-1:", "i9223372036854775808e", "i-9223372036854775809e", "18446744073709551615:", "18446744073709551616:", "i--1e", "i1", "0:", "i-e", "ie", "de", "le", "i 1e", "1 :", "i1.0e", "i0x1e"]);
                b.splice(i..i, t.bytes());
            }
        }
    }
}

/// Documents of all kinds: canonical, sloppy, damaged, token soup. The label says which.
pub fn document(s: &mut Src) -> (Vec<u8>, &'static str) {
    let mut out = vec![];
    match s.weighted(&[3, 5, 6, 3]) {
        0 => {
            let v = val(s, 4);
            v.encode(&mut out);
            (out, "canonical")
        }
        1 => {
            let v = val(s, 4);
            spell(s, &v, true, &mut out);
            (out, "sloppy")
        }
        2 => {
            let v = container(s, 3);
            let sl = s.bool();
            spell(s, &v, sl, &mut out);
            damage(s, &mut out);
            (out, "damaged")
        }
        _ => {
            let toks = s.list(60, 8, |s| s.weighted(&[3, 3, 5, 3, 4, 1]));
            for t in toks {
                match t {
                    0 => out.push(b'd'),
                    1 => out.push(b'l'),
                    2 => out.push(b'e'),
                    3 => out.extend_from_slice(format!("i{}e", s.int()).as_bytes()),
                    4 => {
                        let k = key(s);
                        enc_bytes(k.as_bytes(), &mut out)
                    }
                    _ => out.push(s.byte()),
                }
            }
            (out, "tokens")
        }
    }
}

// ---- SHA-1 ------------------------------------------------------------------------------------------------------

/// FIPS 180-4, straight from the text.
pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for blk in d.chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..16 {
            w[t] = u32::from_be_bytes([blk[4 * t], blk[4 * t + 1], blk[4 * t + 2], blk[4 * t + 3]]);
        }
        for t in 16..80 {
            w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut dd, mut e] = h;
        for (t, wt) in w.iter().enumerate() {
            let (f, k) = match t / 20 {
                0 => ((b & c) | (!b & dd), 0x5a827999),
                1 => (b ^ c ^ dd, 0x6ed9eba1),
                2 => ((b & c) | (b & dd) | (c & dd), 0x8f1bbcdcu32),
                _ => (b ^ c ^ dd, 0xca62c1d6),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wt);
            e = dd;
            dd = c;
            c = b.rotate_left(30);
            b = a;
            a = x;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, dd, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0u8; 20];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}
pub fn ip_octets(ip: &std::net::IpAddr) -> Vec<u8> {
    match ip {
        std::net::IpAddr::V4(a) => a.octets().to_vec(),
        std::net::IpAddr::V6(a) => a.octets().to_vec(),
    }
}

// ---- Bloom filter of BEP 33 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Bloom {
    pub bits: Vec<bool>,
}
impl Bloom {
    pub fn new(bytes: usize) -> Self {
        Bloom { bits: vec![false; bytes * 8] }
    }
    pub fn indices(&self, key: &[u8]) -> [usize; 2] {
        let m = self.bits.len();
        [(key[0] as usize + 256 * key[1] as usize) % m, (key[2] as usize + 256 * key[3] as usize) % m]
    }
    pub fn set(&mut self, key: &[u8]) {
        for i in self.indices(key) {
            self.bits[i] = true;
        }
    }
    pub fn find(&self, key: &[u8]) -> bool {
        self.indices(key).iter().all(|&i| self.bits[i])
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().map(|(i, &b)| (b as u8) << i).sum()).collect()
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        Bloom { bits: b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
    }
    pub fn size(&self) -> f64 {
        let m = self.bits.len() as f64;
        let c = (self.bits.iter().filter(|b| !**b).count() as f64).min(m - 1.0);
        (c / m).ln() / (2.0 * (1.0 - 1.0 / m).ln())
    }
}

// ---- text codecs --------------------------------------------------------------------------------------------------

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2)
        .map(|c| {
            let d = |x: u8| (x as char).to_digit(16);
            Some((d(c[0])? * 16 + d(c[1])?) as u8)
        })
        .collect()
}
/// RFC 4648, without padding.
pub fn base32(b: &[u8]) -> String {
    let bits: Vec<u8> = b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1)).collect();
    bits.chunks(5)
        .map(|c| {
            let mut v = 0;
            for i in 0..5 {
                v = v * 2 + c.get(i).copied().unwrap_or(0);
            }
            b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[v as usize] as char
        })
        .collect()
}
/// Percent-encoding in a random style; what is left raw never has a meaning in a query.
pub fn percent(s: &mut Src, text: &[u8], plus: bool) -> Vec<u8> {
    let style = s.usize(4);
    let mut out = vec![];
    for &c in text {
        let plain = c.is_ascii_alphanumeric() || b"-._~".contains(&c);
        let raw = match style {
            0 => plain,
            1 => plain && s.bool(),
            2 => plain || b":/?@!$()*,;[]|".contains(&c),
            _ => false,
        };
        if raw {
            out.push(c);
        } else if c == b' ' && plus && s.bool() {
            out.push(b'+');
        } else {
            let t = if s.bool() { format!("%{:02X}", c) } else { format!("%{:02x}", c) };
            out.extend_from_slice(t.as_bytes());
        }
    }
    out
}

/// All characters, in blocks: those of block `i` below `CHAR_BLOCKS`.
pub const CHAR_BLOCKS: u64 = 0x110000 / 256;
pub fn chars_block(i: u64) -> impl Iterator<Item = char> {
    (i as u32 * 256..i as u32 * 256 + 256).filter_map(char::from_u32)
}
/// Every byte of a text escaped.
pub fn percent_all(text: &str) -> String {
    text.bytes().map(|b| format!("%{:02x}", b)).collect()
}
