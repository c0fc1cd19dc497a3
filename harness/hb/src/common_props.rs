use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::sha1::Sha1Hash;
use common::{clamp, ed25519, hex, random};
use crate::turns_props;
use engine::model::{self, Bloom};
use engine::{turns, ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};
use std::hint::black_box;

fn h(id: [u8; 20]) -> Sha1Hash {
    Sha1Hash::from(id)
}
fn raw(x: &Sha1Hash) -> [u8; 20] {
    let mut a = [0; 20];
    assert_eq!(x.len(), 20, "an identifier views {} bytes", x.len());
    a.copy_from_slice(x);
    a
}

// ---- C01 ------------------------------------------------------------------------------------------------------------

pub fn c01_one(m: &[u8]) -> R {
    let want = model::sha1(m);
    let got = Sha1Hash::update(m);
    ensure!(raw(&got) == want, "the hash of {} is {} instead of {}", show(m), model::hex(&raw(&got)), model::hex(&want));
    ensure!(Sha1Hash::update(m) == got, "hashing {} twice differs", show(m));
    Ok(())
}
pub fn c01_ip(ip: std::net::IpAddr) -> R {
    let want = model::sha1(&model::ip_octets(&ip));
    let got = raw(&Sha1Hash::from_address(&ip));
    ensure!(got == want, "the hash of {} is {} instead of {}", ip, model::hex(&got), model::hex(&want));
    Ok(())
}
fn c01(c: &mut Ctx) -> R {
    if c.s.chance(1, 8) {
        let m = c.s.blob(3000);
        return turns::twins(c, m, c01_one);
    }
    if c.s.chance(1, 3) {
        let ip = c.s.ip();
        c.label(if ip.is_ipv4() { "IPv4 address" } else { "IPv6 address" });
        c.key(&ip);
        c.nontrivial(true);
        c.show(|| format!("address {}", ip));
        return c01_ip(ip);
    }
    let mut m = c.s.blob(70_000);
    if c.s.chance(1, 2) {
        // near a block boundary
        let n = 64 * c.s.usize(8) + c.s.usize(20) + 50;
        m.resize(n, c.s.byte());
    }
    c.key(&m);
    c.label(match m.len() {
        0 => "empty",
        1..=55 => "one block",
        56..=64 => "padding spills into a second block",
        65..=4096 => "several blocks",
        _ => "many blocks",
    });
    c.nontrivial(!m.is_empty());
    c.show(|| show(&m));
    c01_one(&m)
}
pub const C01: Prop = Prop {
    id: "C01",
    rule: "random byte strings up to 70 kB, half of them near a 64-byte block boundary, and random addresses of both families; every length up to 300 (2000 thorough) with three fillings enumerated; inputs of up to 512 MiB (past the 2^32nd bit). Non-trivial: non-empty input or an address.",
    assumptions: &["the reference SHA-1 in harness/engine/src/model.rs follows FIPS 180-4"],
    quick: 1_200_000,
    thorough: 5_000_000,
    case: c01,
    phases: &[Phase {
        name: "large inputs",
        count: |t| model::sizes().len() as u64 * 2 + if t { 16 } else { 9 },
        run: |c, i| {
            let k = model::sizes().len();
            let n = match i as usize {
                i if i < k => model::sizes()[i],
                i if i < 2 * k => model::sizes()[i - k] * 7 + c.s.usize(3),
                // the length in bits needs a 33rd bit
                i if i == 2 * k => (1 << 29) + c.s.usize(130),
                // 2^18 .. 2^25 quick, .. 2^29 thorough
                i => (1 << (17 + (i - 2 * k).min(12))) + c.s.usize(130) - 65,
            };
            let m: Vec<u8> = (0..n).map(|k| (k * 7 + k / 251) as u8).collect();
            c.key(&n);
            c.nontrivial(true);
            c.label_if(n > 1 << 20, "over a mebibyte");
            c.show(|| format!("{} bytes", n));
            c01_one(&m)
        },
    }, Phase {
        name: "every length",
        count: |t| if t { 6000 } else { 900 },
        run: |c, i| {
            let n = (i / 3) as usize;
            let m: Vec<u8> = match i % 3 {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => (0..n).map(|k| (k * 7 + 1) as u8).collect(),
            };
            c.key(&m);
            c.nontrivial(true);
            c.show(|| show(&m));
            c01_one(&m)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- C02 ------------------------------------------------------------------------------------------------------------

#[repr(C)]
struct Guarded {
    pre: [u8; 512],
    id: Sha1Hash,
    post: [u8; 512],
}
fn model_shift(id: [u8; 20], left: bool, n: usize) -> [u8; 20] {
    let mut out = [0u8; 20];
    for bit in 0..160usize {
        // bit 0 is the most significant
        let from = if left { bit.checked_add(n) } else { bit.checked_sub(n) };
        if let Some(f) = from.filter(|&f| f < 160) {
            if id[f / 8] >> (7 - f % 8) & 1 == 1 {
                out[bit / 8] |= 0x80 >> (bit % 8);
            }
        }
    }
    out
}
fn shifted(id: [u8; 20], left: bool, n: usize, guard: u8) -> Result<[u8; 20], String> {
    let mut g = Box::new(Guarded { pre: [guard; 512], id: h(id), post: [!guard; 512] });
    {
        let g = black_box(&mut *g);
        if left {
            g.id <<= n;
        } else {
            g.id >>= n;
        }
    }
    let g = black_box(g);
    ensure!(g.pre.iter().all(|&b| b == guard), "shifting {} by {} changes memory before it", if left { "left" } else { "right" }, n);
    ensure!(g.post.iter().all(|&b| b == !guard), "shifting {} by {} changes memory after it", if left { "left" } else { "right" }, n);
    Ok(raw(&g.id))
}
pub fn c02_one(id: [u8; 20], left: bool, n: usize, guard: u8) -> R {
    let got = shifted(id, left, n, guard)?;
    let want = model_shift(id, left, n);
    ensure!(got == want, "{} {} {} is {} instead of {}", model::hex(&id), if left { "<<" } else { ">>" }, n, model::hex(&got), model::hex(&want));
    Ok(())
}
fn amount(s: &mut Src) -> usize {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => s.usize(161),
        1 => 8 * s.usize(22),
        2 => s.usize(400),
        _ => *s.pick(&[usize::MAX, usize::MAX - 7, 1 << 32, 256, 1 << 63, 160, 161, 167, 168, 20000, (1 << 32) + 3]),
    }
}
fn c02(c: &mut Ctx) -> R {
    if c.s.chance(1, 20) {
        let (m, left, n) = (c.s.id(), c.s.bool(), amount(&mut c.s));
        return turns::twins(c, m.to_vec(), |b| c02_one(turns_props::id(b, 0), left, n, 0x5a));
    }
    let id = c.s.id();
    let left = c.s.bool();
    let (a, b) = (amount(&mut c.s), amount(&mut c.s));
    let guard = c.s.byte();
    c.key(&(id, left, a, b));
    c.label_if(a % 8 != 0 && a > 8, "bytes and bits");
    c.label_if(a >= 160, "shifted out");
    c.nontrivial(a > 0 && id != [0; 20]);
    c.show(|| format!("{} {} {} then {}", model::hex(&id), if left { "<<" } else { ">>" }, a, b));
    c02_one(id, left, a, guard)?;
    // composition, without the model
    let both = shifted(shifted(id, left, a, guard)?, left, b, guard)?;
    let sum = shifted(id, left, a.saturating_add(b), guard)?;
    ensure!(both == sum, "{} shifted by {} and {} is {}, by their sum {}", model::hex(&id), a, b, model::hex(&both), model::hex(&sum));
    Ok(())
}
const PATTERNS: [[u8; 20]; 6] = [
    [0xff; 20],
    [0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20],
    [0xa5; 20],
    [0; 20],
    [0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10, 0x0f, 0x1e, 0x2d, 0x3c, 0x4b, 0x5a, 0x69, 0x78, 0x87, 0x96, 0xa5, 0xb4],
];
pub const C02: Prop = Prop {
    id: "C02",
    rule: "random identifiers (sparse, dense, patterned) and amounts (0..160, multiples of 8, huge) in both directions, with 512 guarded bytes on either side; every amount up to 400 on six patterns, and every single bit by every amount, enumerated. Non-trivial: a non-zero identifier and amount.",
    assumptions: &["memory effects are seen within 512 bytes on either side of the identifier"],
    quick: 3_000_000,
    thorough: 20_000_000,
    case: c02,
    phases: &[
        Phase {
            name: "every amount",
            count: |_| 6 * 2 * 401,
            run: |c, i| {
                let (id, left, n) = (PATTERNS[(i % 6) as usize], i / 6 % 2 == 0, (i / 12) as usize);
                c.key(&(id, left, n));
                c.nontrivial(true);
                c.show(|| format!("{} left {} by {}", model::hex(&id), left, n));
                c02_one(id, left, n, 0x5a)
            },
        },
        Phase {
            name: "every bit by every amount",
            count: |_| 160 * 161 * 2,
            run: |c, i| {
                let (bit, n, left) = ((i / 2 % 160) as usize, (i / 320) as usize, i % 2 == 0);
                let mut id = [0u8; 20];
                id[bit / 8] = 0x80 >> (bit % 8);
                c.key(&(id, left, n));
                c.nontrivial(true);
                c.show(|| format!("{} left {} by {}", model::hex(&id), left, n));
                c02_one(id, left, n, 0xa5)
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- C03 ------------------------------------------------------------------------------------------------------------

fn c03(c: &mut Ctx) -> R {
    if c.s.chance(1, 20) {
        let (m, y) = (c.s.id(), c.s.id());
        return turns::twins(c, m.to_vec(), |b| {
            c03_pair(turns_props::id(b, 0), y)?;
            c03_pair(y, turns_props::id(b, 0))?;
            c03_bytes(b)
        });
    }
    let x = c.s.id();
    let y = match c.s.usize(4) {
        0 => x,
        1 => {
            let mut y = x;
            let b = c.s.usize(160);
            y[b / 8] ^= 0x80 >> (b % 8);
            y
        }
        _ => c.s.id(),
    };
    c.key(&(x, y));
    c.nontrivial(x != [0; 20] || y != [0; 20]);
    c.label_if(x == y, "equal pair");
    c.show(|| format!("{} and {}", model::hex(&x), model::hex(&y)));
    c03_pair(x, y)?;
    let b = match c.s.usize(3) {
        0 => x.to_vec(),
        1 => c.s.bytes(20),
        _ => {
            let n = *c.s.pick(&[0usize, 1, 19, 21, 20, 40, 39, 160]);
            let n = if c.s.bool() { n } else { c.s.usize(64) };
            c.s.bytes(n)
        }
    };
    c03_bytes(&b)
}
pub fn c03_bytes(b: &[u8]) -> R {
    let got = Sha1Hash::from_bytes(b).map(|g| raw(&g).to_vec());
    let want = if b.len() == 20 { Some(b.to_vec()) } else { None };
    ensure_eq!(got, want, "identifier from {} bytes", b.len());
    Ok(())
}
pub fn c03_pair(x: [u8; 20], y: [u8; 20]) -> R {
    macro_rules! op {
        ($op:tt, $assign:tt, $name:expr) => {{
            let mut want = [0u8; 20];
            for i in 0..20 {
                want[i] = x[i] $op y[i];
            }
            let mut a = h(x);
            a $assign h(y);
            let mut b = h(x);
            b $assign &h(y);
            let all = [raw(&(h(x) $op h(y))), raw(&(h(x) $op &h(y))), raw(&(&h(x) $op &h(y))), raw(&(&h(x) $op h(y))), raw(&a), raw(&b)];
            for (k, got) in all.iter().enumerate() {
                ensure!(*got == want, "{} of {} and {} (form {}) is {} instead of {}", $name, model::hex(&x), model::hex(&y), k, model::hex(got), model::hex(&want));
            }
        }};
    }
    op!(&, &=, "and");
    op!(|, |=, "or");
    op!(^, ^=, "xor");
    let not = raw(&!h(x));
    ensure!((0..20).all(|i| not[i] == 255 - x[i]), "not of {} is {}", model::hex(&x), model::hex(&not));
    // order and equality as numbers: compare by halves to stay away from the array order
    let num = |a: &[u8; 20]| (a[..4].iter().fold(0u128, |n, &b| n * 256 + b as u128), a[4..].iter().fold(0u128, |n, &b| n * 256 + b as u128));
    let (nx, ny) = (num(&x), num(&y));
    ensure_eq!(h(x).cmp(&h(y)), nx.cmp(&ny), "order of {} and {}", model::hex(&x), model::hex(&y));
    ensure_eq!(h(x).partial_cmp(&h(y)), Some(nx.cmp(&ny)), "partial order of {} and {}", model::hex(&x), model::hex(&y));
    ensure_eq!(h(x) == h(y), nx == ny, "equality of {} and {}", model::hex(&x), model::hex(&y));
    let hash = |a: &Sha1Hash| {
        use std::hash::{Hash, Hasher};
        let mut s = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut s);
        s.finish()
    };
    ensure!(nx != ny || hash(&h(x)) == hash(&h(y)), "equal identifiers {} hash differently", model::hex(&x));
    let lz = (0..160).find(|&b| x[b / 8] >> (7 - b % 8) & 1 == 1).unwrap_or(160);
    ensure_eq!(h(x).leading_zeros(), lz, "leading zeros of {}", model::hex(&x));
    ensure_eq!(h(x).all_zeroes(), x == [0; 20], "all_zeroes of {}", model::hex(&x));
    ensure_eq!(h(x).to_string(), model::hex(&x), "printed form");
    ensure!(raw(&Sha1Hash::from(&x)) == x && raw(&h(x).clone()) == x, "copies of {} differ", model::hex(&x));
    ensure!(h(x).iter().copied().eq(x.iter().copied()), "iteration over {}", model::hex(&x));
    ensure!(h(x) >= Sha1Hash::min() && h(x) <= Sha1Hash::max(), "{} is outside the smallest and largest", model::hex(&x));
    let mut m = h(x);
    for (a, b) in m.iter_mut().zip(y) {
        *a = b;
    }
    ensure!(raw(&m) == y, "writing {} through iter_mut gives {}", model::hex(&y), model::hex(&raw(&m)));
    m[3] ^= 0x10;
    let mut z = y;
    z[3] ^= 0x10;
    ensure!(raw(&m) == z, "writing through the byte view");
    m.clear();
    ensure!(raw(&m) == [0; 20] && m == Sha1Hash::min(), "clearing gives {}", model::hex(&raw(&m)));
    ensure!(raw(&Sha1Hash::min()) == [0; 20] && raw(&Sha1Hash::new()) == [0; 20] && raw(&Sha1Hash::default()) == [0; 20] && raw(&Sha1Hash::max()) == [0xff; 20], "smallest and largest");
    Ok(())
}
pub const C03: Prop = Prop {
    id: "C03",
    rule: "random pairs of identifiers, a quarter equal and a quarter differing in one bit, through every operator form; byte strings of length 0 to 160; every pair of single-bit identifiers enumerated. Non-trivial: not both zero.",
    assumptions: &[],
    quick: 2_000_000,
    thorough: 10_000_000,
    case: c03,
    phases: &[
        Phase {
            name: "pairs of single bits",
            count: |_| 160 * 160,
            run: |c, i| {
                let (mut x, mut y) = ([0u8; 20], [0u8; 20]);
                let (a, b) = ((i % 160) as usize, (i / 160) as usize);
                x[a / 8] = 0x80 >> (a % 8);
                y[b / 8] = 0x80 >> (b % 8);
                c.key(&(x, y));
                c.nontrivial(true);
                c.show(|| format!("{} and {}", model::hex(&x), model::hex(&y)));
                c03_pair(x, y)
            },
        },
        Phase {
            name: "every byte string length",
            count: |_| 300,
            run: |c, i| {
                let b: Vec<u8> = (0..i).map(|k| (k + 1) as u8).collect();
                c.key(&b);
                c.nontrivial(true);
                c.show(|| show(&b));
                c03_bytes(&b)
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- C04 ------------------------------------------------------------------------------------------------------------

pub fn c04_decode(t: &[u8]) -> R {
    let want = model::unhex(t);
    let n = (t.len() + 1) / 2;
    let mut out = vec![0xa5u8; n + 3];
    let r = hex::from_hex(t, &mut out[..n]);
    ensure_eq!(r.is_some(), want.is_some(), "hex text {} decodes", show(t));
    ensure!(out[n..].iter().all(|&b| b == 0xa5), "decoding {} writes beyond the output", show(t));
    if t.len() % 2 == 1 {
        // room for the whole bytes only
        ensure!(hex::from_hex(t, &mut out[..n - 1]).is_none(), "hex text {} of odd length decodes into {} bytes", show(t), n - 1);
    }
    if let Some(w) = want {
        ensure!(out[..n] == w[..], "hex text {} decodes to {} instead of {}", show(t), model::hex(&out[..n]), model::hex(&w));
        // a longer output is filled from the front only
        let mut out = vec![0x5au8; n + 7];
        ensure!(hex::from_hex(t, &mut out).is_some() && out[..n] == w[..] && out[n..].iter().all(|&b| b == 0x5a), "decoding {} into a longer output", show(t));
    }
    Ok(())
}
pub fn c04_bytes(b: &[u8]) -> R {
    let t = hex::to_hex(b);
    ensure!(t == model::hex(b), "{} becomes the hex text {:?}", show(b), t);
    ensure!(hex::is_hex(t.as_bytes()), "{:?} is not taken for hex", t);
    let mut out = vec![0xa5; b.len()];
    ensure!(hex::from_hex(t.as_bytes(), &mut out).is_some() && out == b, "{} becomes {:?} and comes back as {}", show(b), t, show(&out));
    let u = t.to_uppercase();
    let mut out = vec![0xa5; b.len()];
    ensure!(hex::from_hex(u.as_bytes(), &mut out).is_some() && out == b, "{:?} decodes to {}", u, show(&out));
    Ok(())
}
fn c04(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let m = c.s.blob(300);
        let text = c.s.bool();
        let m = if text { model::hex(&m).into_bytes() } else { m };
        return turns::twins(c, m, |b| if text { c04_decode(b) } else { c04_bytes(b) });
    }
    let max = if c.s.chance(1, 60) { 100_000 } else { 2000 };
    let b = c.s.blob(max);
    c.nontrivial(!b.is_empty());
    if c.s.bool() {
        c.key(&b);
        c.label("bytes");
        c.show(|| show(&b));
        return c04_bytes(&b);
    }
    // digits in mixed case, sometimes damaged
    let mut t: Vec<u8> = model::hex(&b).into_bytes();
    let style = c.s.usize(3);
    for x in t.iter_mut() {
        if style == 1 || style == 2 && c.s.bool() {
            *x = x.to_ascii_uppercase();
        }
    }
    match c.s.usize(4) {
        0 => {}
        1 => {
            t.pop();
        }
        2 if !t.is_empty() => {
            let i = c.s.usize(t.len());
            t[i] = c.s.byte();
        }
        _ => {
            if !t.is_empty() {
                let i = c.s.usize(t.len());
                t[i] = *c.s.pick(b"gG@`/: xX-+\0\xff\xb0\xe1");
            }
        }
    }
    c.key(&t);
    c.show(|| show(&t));
    let good = model::unhex(&t).is_some();
    c.label(if good { "hex text" } else { "not hex text" });
    let all = t.iter().all(|c| c.is_ascii_hexdigit());
    ensure_eq!(hex::is_hex(&t), all, "is_hex({})", show(&t));
    c04_decode(&t)
}
pub const C04: Prop = Prop {
    id: "C04",
    rule: "random byte strings up to 2000 bytes to text and back in both cases; random texts in mixed case, intact, cut to odd length or with one byte replaced; every pair of bytes as text, and every byte as digit, enumerated; byte strings and texts of up to 100 kB and around powers of two. Non-trivial: non-empty.",
    assumptions: &["the output has room for the decoded bytes, as the signature requires"],
    quick: 800_000,
    thorough: 10_000_000,
    case: c04,
    phases: &[
        Phase {
            name: "large byte strings and texts",
            count: |_| (model::sizes().len() + model::HUGE.len()) as u64 * 4,
            run: |c, i| {
                let n = match (i as usize / 4).checked_sub(model::sizes().len()) {
                    Some(k) => model::HUGE[k] - i as usize % 2,
                    None => model::sizes()[i as usize / 4] * if i % 2 == 1 { 8 } else { 1 },
                };
                let b: Vec<u8> = (0..n).map(|k| (k * 7 + k / 251) as u8).collect();
                c.key(&(n, i % 4));
                c.nontrivial(true);
                c.show(|| format!("{} bytes", n));
                if i % 4 < 2 {
                    return c04_bytes(&b);
                }
                // one bad or mixed-case digit anywhere in a long text
                let mut t = model::hex(&b).into_bytes();
                for _ in 0..4 {
                    let k = c.s.usize(t.len());
                    t[k] = if c.s.bool() { b'F' } else { c.s.byte() };
                    ensure_eq!(hex::is_hex(&t), t.iter().all(|c| c.is_ascii_hexdigit()), "is_hex({})", show(&t));
                    c04_decode(&t)?;
                }
                t.pop();
                c04_decode(&t)
            },
        },
        Phase {
            name: "every pair of bytes as text",
            count: |_| 65536,
            run: |c, i| {
                let t = [(i >> 8) as u8, i as u8];
                c.key(&t);
                c.nontrivial(true);
                c.show(|| show(&t));
                ensure_eq!(hex::is_hex(&t), t.iter().all(|c| c.is_ascii_hexdigit()), "is_hex({})", show(&t));
                c04_decode(&t)
            },
        },
        Phase {
            name: "every byte",
            count: |_| 256,
            run: |c, i| {
                let b = i as u8;
                c.key(&b);
                c.nontrivial(true);
                c.show(|| show(&[b]));
                let want = b"0123456789abcdef".iter().position(|&d| d == b).or_else(|| b"0123456789ABCDEF".iter().position(|&d| d == b)).map(|v| v as u8);
                ensure_eq!(hex::hex_to_int(b), want, "the digit value of {}", show(&[b]));
                ensure_eq!(hex::is_hex(&[b]), want.is_some(), "is_hex of {}", show(&[b]));
                c04_decode(&[b])?;
                c04_bytes(&[b])?;
                ensure!(hex::is_hex(b""), "the empty text is hex");
                c04_decode(b"")
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- C05 ------------------------------------------------------------------------------------------------------------

macro_rules! bloom {
    ($run:ident, $index:ident, $ty:ident, $n:expr) => {
        pub fn $run(start: &[u8], keys: &[[u8; 20]], probes: &[[u8; 20]], clear_at: usize) -> R {
            let mut f = if start.is_empty() { $ty::new() } else { $ty::from(start) };
            let mut m = if start.is_empty() { Bloom::new($n) } else { Bloom::from_bytes(start) };
            if !start.is_empty() {
                let mut a = [0u8; $n];
                a.copy_from_slice(start);
                ensure!($ty::from(a).as_bytes() == start && $ty::from(start.to_vec()).as_bytes() == start, "raw bytes do not round-trip");
                if let Ok(t) = std::str::from_utf8(start) {
                    ensure!($ty::from(t).as_bytes() == start && $ty::from(t.to_string()).as_bytes() == start, "text does not round-trip");
                }
            } else {
                ensure!($ty::default().as_bytes() == [0u8; $n], "a default filter is not empty");
            }
            let estimate = |f: &$ty, m: &Bloom, when: &str| -> Result<f64, String> {
                let (s, w) = (f.size(), m.size());
                ensure!(s == w || (s - w).abs() <= 1e-6 * (1.0 + w.abs()), "the size estimate {} is {} instead of {}", when, s, w);
                Ok(s)
            };
            let mut last = estimate(&f, &m, "at the start")?;
            for (i, k) in keys.iter().enumerate() {
                if i == clear_at {
                    f.clear();
                    m = Bloom::new($n);
                    ensure!(f.as_bytes() == [0u8; $n], "a cleared filter is not empty");
                    last = estimate(&f, &m, "after clearing")?;
                }
                f.set(&h(*k));
                m.set(k);
                if i < 8 || i + 1 == keys.len() || i % 64 == 0 {
                    ensure!(f.as_bytes() == &m.bytes()[..], "after inserting {} the filter is {} instead of {}", model::hex(k), model::hex(f.as_bytes()), model::hex(&m.bytes()));
                }
                ensure!(f.find(&h(*k)), "{} is not found after its insertion", model::hex(k));
                let s = estimate(&f, &m, "after an insertion")?;
                ensure!(s >= last || s.is_infinite() && last.is_infinite(), "the size estimate falls from {} to {}", last, s);
                last = s;
            }
            ensure!(f.as_bytes() == &m.bytes()[..], "the filter is {} instead of {}", model::hex(f.as_bytes()), model::hex(&m.bytes()));
            let from = clear_at.min(keys.len());
            let inserted = if clear_at < keys.len() { &keys[from..] } else { keys };
            for k in inserted {
                ensure!(f.find(&h(*k)), "{} was inserted but is not found", model::hex(k));
            }
            for k in probes.iter().chain(keys) {
                ensure_eq!(f.find(&h(*k)), m.find(k), "find({})", model::hex(k));
            }
            ensure!(f.as_bytes() == &m.bytes()[..], "lookups change the filter");
            // construction from what it holds
            let g = $ty::from(f.as_bytes());
            ensure!(g.as_bytes() == f.as_bytes(), "raw bytes do not round-trip");
            estimate(&g, &m, "of a copy")?;
            ensure_eq!(g.find(&h([0xaa; 20])), m.find(&[0xaa; 20]), "find in a copy");
            Ok(())
        }
        fn $index(w: u16, second: bool) -> R {
            let mut k = [0u8; 20];
            let at = if second { 2 } else { 0 };
            k[at] = w as u8;
            k[at + 1] = (w >> 8) as u8;
            let mut f = $ty::new();
            f.set(&h(k));
            let mut want = Bloom::new($n);
            want.bits[0] = true;
            want.bits[w as usize % ($n * 8)] = true;
            ensure!(f.as_bytes() == &want.bytes()[..], "{} sets {}", model::hex(&k[..4]), model::hex(f.as_bytes()));
            Ok(())
        }
    };
}
bloom!(c05_128, c05_index_128, BloomFilter128, 128);
bloom!(c05_256, c05_index_256, BloomFilter256, 256);

fn c05(c: &mut Ctx) -> R {
    if c.s.chance(1, 10) {
        // filters of related content, one after another in the same place
        let n = 1 + c.s.usize(400);
        let m = c.s.bytes(n);
        let raw = c.s.bool();
        return turns::twins(c, m, |b| {
            let keys: Vec<[u8; 20]> = b.chunks(20).map(|k| turns_props::id(k, 0)).collect();
            let mut start = if raw { b.to_vec() } else { vec![] };
            start.resize(if raw { 256 } else { 0 }, 0);
            c05_256(&start, &keys, &[turns_props::id(b, 1)], usize::MAX)?;
            start.truncate(128);
            c05_128(&start, &keys, &[turns_props::id(b, 1)], usize::MAX)
        });
    }
    let big = c.s.bool();
    let n = if big { 256 } else { 128 };
    let start = match c.s.weighted(&[5, 2, 1, 1]) {
        0 => vec![],
        1 => c.s.bytes(n),
        2 => {
            let mut v = vec![0xff; n];
            if c.s.bool() {
                let i = c.s.usize(n);
                v[i] ^= 1 << c.s.usize(8);
            }
            v
        }
        _ => (0..n).map(|_| c.s.byte() & 0x7f).collect(),
    };
    let cnt = c.s.size(3000);
    let keys: Vec<[u8; 20]> = if cnt > 60 {
        let seed = c.s.u32();
        (0..cnt).map(|i| model::sha1(&[&seed.to_be_bytes()[..], &(i as u32).to_be_bytes()].concat())).collect()
    } else {
        (0..cnt).map(|_| c.s.span(|s| s.id())).collect()
    };
    let probes: Vec<[u8; 20]> = (0..8)
        .map(|_| {
            let mut k = if keys.is_empty() { c.s.id() } else { *c.s.pick(&keys) };
            match c.s.usize(4) {
                0 => k.swap(0, 1),
                1 => k[c.s.usize(4)] ^= 1 << c.s.usize(8),
                2 => k = c.s.id(),
                _ => k[4 + c.s.usize(16)] ^= 0xff,
            }
            k
        })
        .collect();
    let clear_at = if c.s.chance(1, 4) { c.s.usize(cnt + 1) } else { usize::MAX };
    c.key(&(big, &start, &keys, &probes, clear_at));
    c.nontrivial(!keys.is_empty());
    c.label(if big { "256 bytes" } else { "128 bytes" });
    c.label_if(clear_at < cnt, "cleared midway");
    c.label_if(!start.is_empty(), "started from raw bytes");
    c.label_if(cnt > 1000, "over 1000 keys");
    c.show(|| format!("{} bytes, start {}, {} keys {:?}.., clear at {}", n, model::hex(&start), keys.len(), keys.iter().take(4).map(|k| model::hex(k)).collect::<Vec<_>>(), clear_at as isize));
    if big {
        c05_256(&start, &keys, &probes, clear_at)
    } else {
        c05_128(&start, &keys, &probes, clear_at)
    }
}
pub const C05: Prop = Prop {
    id: "C05",
    rule: "random insertion sequences of up to 3000 keys into both filter sizes, starting empty, full, nearly full or random, sometimes cleared midway, compared bit by bit with a set of bits, with near-miss lookups; every 16-bit index word in both positions and sizes enumerated. Non-trivial: at least one insertion.",
    assumptions: &["raw construction takes exactly the filter's size, as its callers do", "the size estimate is compared to 1e-6"],
    quick: 120_000,
    thorough: 1_500_000,
    case: c05,
    phases: &[Phase {
        name: "every index word",
        count: |_| 65536 * 2,
        run: |c, i| {
            let (w, second) = (i as u16, i >> 16 == 1);
            c.key(&(w, second));
            c.nontrivial(true);
            c.show(|| format!("index word {} in position {}", w, second as u8));
            c05_index_128(w, second)?;
            c05_index_256(w, second)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- C06 ------------------------------------------------------------------------------------------------------------

fn c06_index(n: usize) -> R {
    if n <= 600 {
        let mut seen = vec![false; n];
        let mut left = n;
        // a uniform draw misses an index with probability below n * e^-60
        for _ in 0..60 * n + 60 {
            let v = random::random_usize(n);
            ensure!(v < n, "a random index below {} is {}", n, v);
            if !seen[v] {
                seen[v] = true;
                left -= 1;
                if left == 0 {
                    break;
                }
            }
        }
        ensure!(left == 0, "{} of the {} indices below {} never occur in {} draws: {:?}", left, n, n, 60 * n + 60, (0..n).filter(|&i| !seen[i]).take(10).collect::<Vec<_>>());
    } else {
        let mut bucket = [false; 8];
        let mut residue = [[false; 8]; 9];
        for _ in 0..500 {
            let v = random::random_usize(n);
            ensure!(v < n, "a random index below {} is {}", n, v);
            bucket[(v as u128 * 8 / n as u128) as usize] = true;
            for m in 2..9 {
                residue[m][v % m] = true;
            }
        }
        ensure!(bucket.iter().all(|&b| b), "500 random indices below {} leave out an eighth of the range: {:?}", n, bucket);
        for m in 2..9 {
            ensure!(residue[m][..m].iter().all(|&b| b), "500 random indices below {} leave out a residue modulo {}", n, m);
        }
    }
    Ok(())
}
fn c06_fill(n: usize) -> R {
    let mut acc = vec![0u8; n];
    let mut first = vec![];
    let (mut or, mut and) = (vec![0u8; n], vec![0xffu8; n]);
    for k in 0..12 {
        let mut b = vec![0xa5u8; n + 64];
        random::fill_bytes(&mut b[32..32 + n]);
        ensure!(b[..32].iter().chain(&b[32 + n..]).all(|&x| x == 0xa5), "filling {} bytes writes beyond them", n);
        let b = &b[32..32 + n];
        if k == 0 {
            first = b.to_vec();
        }
        for i in 0..n {
            acc[i] |= b[i] ^ first[i];
            or[i] |= b[i];
            and[i] &= b[i];
        }
    }
    ensure!(acc.iter().all(|&x| x != 0), "12 random fillings of {} bytes agree at offset {}", n, acc.iter().position(|&x| x == 0).unwrap_or(0));
    if n >= 32 {
        // no part of a filling repeats
        let mut parts: Vec<&[u8]> = first.chunks_exact(16).collect();
        parts.sort();
        for w in parts.windows(2) {
            ensure!(w[0] != w[1], "a filling of {} bytes holds {} twice", n, model::hex(w[0]));
        }
    }
    if n >= 512 {
        // every bit takes both values somewhere
        ensure!(or.iter().fold(0, |a, b| a | b) == 0xff && and.iter().fold(0xff, |a, b| a & b) == 0, "a bit of random bytes never changes");
    }
    Ok(())
}
fn c06(c: &mut Ctx) -> R {
    c.nontrivial(true);
    match c.s.weighted(&[3, 2, 1, 6]) {
        0 => {
            let n = match c.s.usize(3) {
                0 => 1 + c.s.usize(40),
                1 => 1 + c.s.usize(600),
                _ => (c.s.u64() >> c.s.usize(54)).max(1) as usize,
            };
            c.key(&("index", n));
            c.label("index");
            c.show(|| format!("indices below {}", n));
            c06_index(n)
        }
        1 => {
            let n = c.s.size(5000);
            c.key(&("fill", n));
            c.label("fill");
            c.show(|| format!("filling {} bytes", n));
            c06_fill(n)
        }
        2 => {
            let k = 3 + c.s.usize(20);
            c.key(&("seed", k));
            c.label("seed");
            c.show(|| format!("{} seeds in each of two threads", k));
            let draw = move || (0..k).map(|_| ed25519::create_seed()).collect::<Vec<_>>();
            let t = std::thread::spawn(draw);
            let mut v = draw();
            v.extend(t.join().map_err(|_| "panic while drawing a seed".to_string())?);
            for i in 0..v.len() {
                for j in 0..i {
                    ensure!(v[i] != v[j], "the same seed twice: {}", model::hex(&v[i]));
                }
            }
            if k >= 20 {
                // 128 seeds and more: every bit takes both values
                let mut v = v.clone();
                while v.len() < 128 {
                    v.push(ed25519::create_seed());
                }
                for b in 0..256 {
                    let on = v.iter().filter(|s| s[b / 8] >> (b % 8) & 1 == 1).count();
                    ensure!(on > 0 && on < v.len(), "bit {} of {} seeds never changes", b, v.len());
                }
            }
            for b in 0..32 {
                ensure!(k < 8 || v.iter().any(|s| s[b] != v[0][b]), "{} seeds agree in byte {}", v.len(), b);
            }
            Ok(())
        }
        _ => {
            c.label("clamp");
            fn cl<T: PartialOrd + Copy + std::fmt::Debug>(v: T, a: T, b: T) -> R {
                let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
                let got = clamp(v, lo, hi);
                let want = if v >= lo && v <= hi {
                    v
                } else if v < lo {
                    lo
                } else {
                    hi
                };
                ensure!(got == want, "clamp({:?}, {:?}, {:?}) is {:?}", v, lo, hi, got);
                Ok(())
            }
            let (v, a, b) = (c.s.int(), c.s.int(), c.s.int());
            let near = c.s.bool();
            let (a, b) = if near { (v.saturating_add(c.s.usize(5) as i64 - 2), v.saturating_add(c.s.usize(5) as i64 - 2)) } else { (a, b) };
            c.key(&("clamp", v, a, b));
            c.show(|| format!("clamp {} between {} and {}", v, a, b));
            cl(v, a, b)?;
            cl(v as u8, a as u8, b as u8)?;
            cl(v as i16, a as i16, b as i16)?;
            cl(v as usize, a as usize, b as usize)?;
            cl(v as f64, a as f64, b as f64)?;
            cl(v as f64 / 7.0, a as f64 / 3.0, b as f64 / 5.0)?;
            cl((v % 3, a % 2), (a % 3, b % 2), (b % 3, v % 2))?;
            let (x, y, z) = (v.to_string(), a.to_string(), b.to_string());
            cl(&x[..], &y[..], &z[..])
        }
    }
}
fn c06_extra(_: bool) -> Result<Vec<String>, String> {
    let mut seen: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(exe).arg("seed").output().map_err(|e| e.to_string())?;
        if seen.contains(&o.stdout) {
            return Err(format!("two processes draw the same seed, index and bytes: {}", String::from_utf8_lossy(&o.stdout).trim()));
        }
        seen.push(o.stdout);
    }
    Ok(vec![])
}
pub fn seed_child() {
    let mut b = [0u8; 16];
    random::fill_bytes(&mut b);
    println!("{}{}", model::hex(&ed25519::create_seed()), model::hex(&b));
}
pub const C06: Prop = Prop {
    id: "C06",
    rule: "indices below random bounds (all reached for bounds to 600; all eighths and residues for larger ones), buffers of random size between guarded bytes, seeds across threads and processes, clamping of integers, floats, tuples and texts with near and far bounds; every bound up to 200, bounds around every power of two, and buffers of up to 262145 bytes enumerated, every bit of them seen both set and clear. All cases count as non-trivial.",
    assumptions: &["a false alarm needs an event of probability below 1e-20"],
    quick: 400_000,
    thorough: 4_000_000,
    case: c06,
    phases: &[Phase {
        name: "every bound up to 200",
        count: |_| 200,
        run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("indices below {}", i + 1));
            c06_index(i as usize + 1)?;
            c06_fill(i as usize)
        },
    }, Phase {
        name: "every bit of large buffers",
        count: |t| if t { 24 } else { 6 },
        run: |c, i| {
            let n = [1 << 17, 70_001, 5000, 1 << 16, 33_000, 262_145][i as usize % 6];
            c.key(&("bits", i));
            c.nontrivial(true);
            c.label("every bit of a large buffer");
            c.show(|| format!("filling {} bytes 128 times", n));
            let (mut on, mut off) = (vec![0u8; n], vec![0u8; n]);
            let mut b = vec![0u8; n];
            for k in 0..128 {
                b.fill(if k % 2 == 0 { 0 } else { 0xff });
                random::fill_bytes(&mut b);
                for j in 0..n {
                    on[j] |= b[j];
                    off[j] |= !b[j];
                }
            }
            if let Some(j) = (0..n).find(|&j| on[j] != 0xff || off[j] != 0xff) {
                return Err(format!("in 128 fillings of {} bytes, byte {} never has the bits {:02x} set or {:02x} clear", n, j, !on[j], !off[j]));
            }
            Ok(())
        },
    }, Phase {
        name: "bounds around powers of two, and large buffers",
        count: |t| (54 * 3 + model::sizes().len() as u64) * if t { 20 } else { 2 },
        run: |c, i| {
            let i = i % (54 * 3 + model::sizes().len() as u64);
            c.key(&("large", i));
            c.nontrivial(true);
            if i >= 54 * 3 {
                let n = model::sizes()[i as usize - 54 * 3];
                c.label("large buffer");
                c.show(|| format!("filling {} bytes", n));
                return c06_fill(n);
            }
            let n = ((1u128 << (i / 3 + 10 + u64::from(i / 3 == 0))) as u64).wrapping_add(i % 3).wrapping_sub(1) as usize;
            c.label("large bound");
            c.show(|| format!("indices below {}", n));
            // 128 parts of the range and 64 residues: a uniform draw misses one with probability below e^-80
            let mut part = [false; 128];
            let mut residue = [false; 64];
            for _ in 0..14_000 {
                let v = random::random_usize(n);
                ensure!(v < n, "a random index below {} is {}", n, v);
                part[(v as u128 * 128 / n as u128) as usize] = true;
                residue[v % 64] = true;
            }
            ensure!(part.iter().all(|&b| b), "14000 random indices below {} leave out part {:?} of 128", n, part.iter().position(|&b| !b));
            ensure!(residue.iter().all(|&b| b), "14000 random indices below {} leave out the residue {:?} modulo 64", n, residue.iter().position(|&b| !b));
            Ok(())
        },
    }],
    terminates: true,
    extra: Some(c06_extra),
};
