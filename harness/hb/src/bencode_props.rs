use bencode::{Error, Value, ValueRef};
use crate::turns_props;
use engine::model::{self, Val};
use engine::{turns, alloc, ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};

// ---- conversions by matching the public enums, not through any code under test ------------------------------------

pub fn to_value(v: &Val) -> Value {
    match v {
        Val::Int(n) => Value::Int(*n),
        Val::Bytes(b) => Value::Bytes(b.clone()),
        Val::List(l) => Value::List(l.iter().map(to_value).collect()),
        Val::Dict(d) => Value::Dict(d.iter().map(|(k, v)| (k.clone(), to_value(v))).collect()),
    }
}
pub fn to_ref(v: &Val) -> ValueRef<'_> {
    match v {
        Val::Int(n) => ValueRef::Int(*n),
        Val::Bytes(b) => ValueRef::Bytes(b),
        Val::List(l) => ValueRef::List(l.iter().map(to_ref).collect()),
        Val::Dict(d) => ValueRef::Dict(d.iter().map(|(k, v)| (&k[..], to_ref(v))).collect()),
    }
}
pub fn of_value(v: &Value) -> Val {
    match v {
        Value::Int(n) => Val::Int(*n),
        Value::Bytes(b) => Val::Bytes(b.clone()),
        Value::List(l) => Val::List(l.iter().map(of_value).collect()),
        Value::Dict(d) => Val::Dict(d.iter().map(|(k, v)| (k.clone(), of_value(v))).collect()),
    }
}
pub fn of_ref(v: &ValueRef) -> Val {
    match v {
        ValueRef::Int(n) => Val::Int(*n),
        ValueRef::Bytes(b) => Val::Bytes(b.to_vec()),
        ValueRef::List(l) => Val::List(l.iter().map(of_ref).collect()),
        ValueRef::Dict(d) => Val::Dict(d.iter().map(|(k, v)| (k.to_string(), of_ref(v))).collect()),
    }
}
pub fn brief(v: &Val) -> String {
    show(&v.to_vec())
}
fn classify(c: &mut Ctx, v: &Val) {
    c.label(match v {
        Val::Int(_) => "integer",
        Val::Bytes(b) if b.is_empty() => "empty string",
        Val::Bytes(_) => "string",
        Val::List(_) => "list",
        Val::Dict(_) => "dictionary",
    });
    c.label_if(v.depth() > 1, "nested");
    c.label_if(v.count() > 64, "more than 64 tokens");
}

/// Case `i` of the large values, its document and a label.
fn large(c: &mut Ctx, i: u64) -> (Val, Vec<u8>) {
    let (name, v) = model::large(i);
    let doc = v.to_vec();
    c.label(name);
    c.key(&doc);
    c.nontrivial(true);
    c.show(|| format!("{}: {}", name, show(&doc)));
    (v, doc)
}
/// Short forms in messages about large values.
fn check_large(v: &Val, doc: &[u8]) -> R {
    ensure!(model::decode(doc).as_ref() == Some(v), "the reference decoder disagrees with the reference encoder");
    Ok(())
}

// ---- B01 ------------------------------------------------------------------------------------------------------------

pub fn b01_value(v: &Val) -> R {
    let want = v.to_vec();
    let value = to_value(v);
    let vref = to_ref(v);
    let got = value.to_vec();
    ensure!(got == want, "owned encoding is {} instead of {}", show(&got), show(&want));
    let got = vref.to_vec();
    ensure!(got == want, "borrowed encoding is {} instead of {}", show(&got), show(&want));
    let mut w = vec![b'#'];
    value.encode(&mut w).map_err(|e| format!("encode: {}", e))?;
    vref.encode(&mut w).map_err(|e| format!("encode: {}", e))?;
    ensure!(w == [b"#", &want[..], &want[..]].concat(), "encode appends {}", show(&w));
    match Value::decode(&want) {
        Ok(d) => ensure!(of_value(&d) == *v && d == value, "owned decoding of {} gives {}", show(&want), brief(&of_value(&d))),
        Err(e) => return Err(format!("owned decoding of the encoding {} fails: {}", show(&want), e)),
    }
    match ValueRef::decode(&want) {
        Ok(d) => ensure!(of_ref(&d) == *v && d == vref, "borrowed decoding of {} gives {}", show(&want), brief(&of_ref(&d))),
        Err(e) => return Err(format!("borrowed decoding of the encoding {} fails: {}", show(&want), e)),
    }
    Ok(())
}
pub fn b01_document(doc: &[u8]) -> Result<bool, String> {
    let mut ok = false;
    if let Ok(d) = Value::decode(doc) {
        ok = true;
        let v = of_value(&d);
        let y = d.to_vec();
        ensure!(y == v.to_vec(), "{} re-encodes as {} instead of {}", show(doc), show(&y), brief(&v));
        let e = Value::decode(&y).map_err(|e| format!("re-encoding {} of {} is not decoded: {}", show(&y), show(doc), e))?;
        ensure!(of_value(&e) == v, "{} decodes to {} but its re-encoding to {}", show(doc), brief(&v), brief(&of_value(&e)));
        ensure!(e.to_vec() == y, "re-encoding of {} is not a fixed point", show(doc));
    }
    if let Ok(d) = ValueRef::decode(doc) {
        ok = true;
        let v = of_ref(&d);
        let y = d.to_vec();
        ensure!(y == v.to_vec(), "{} re-encodes (borrowed) as {} instead of {}", show(doc), show(&y), brief(&v));
        let e = ValueRef::decode(&y).map_err(|e| format!("re-encoding {} of {} is not decoded (borrowed): {}", show(&y), show(doc), e))?;
        ensure!(of_ref(&e) == v && e.to_vec() == y, "re-encoding of {} (borrowed) is not a fixed point", show(doc));
    }
    Ok(ok)
}
fn b01(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let (doc, _) = model::document(&mut c.s);
        return turns::twins(c, doc, |d| {
            b01_document(d)?;
            model::decode(d).map_or(Ok(()), |v| b01_value(&v))
        });
    }
    if c.s.chance(2, 3) {
        let depth = c.s.usize(6);
        let v = if c.s.chance(1, 60) { nest(&mut c.s, 400) } else { model::val(&mut c.s, depth) };
        classify(c, &v);
        c.key(&v.to_vec());
        c.nontrivial(v.count() > 1 || v.to_vec().len() > 3);
        c.show(|| format!("value {}", brief(&v)));
        if let Val::Bytes(b) = &v {
            ensure!(of_value(&Value::from(b.clone())) == v && of_value(&Value::from(&b[..])) == v && of_ref(&ValueRef::from(&b[..])) == v, "From<bytes> of {}", show(b));
            if let Ok(t) = std::str::from_utf8(b) {
                ensure!(of_value(&Value::with_str(t)) == v && of_value(&Value::with_string(t.into())) == v && of_ref(&ValueRef::with_str(t)) == v, "with_str of {}", show(b));
            }
        }
        b01_value(&v)
    } else {
        let (doc, kind) = model::document(&mut c.s);
        c.key(&doc);
        c.show(|| format!("{} document {}", kind, show(&doc)));
        let ok = b01_document(&doc)?;
        c.label(if ok { "accepted document" } else { "rejected document" });
        c.nontrivial(ok);
        Ok(())
    }
}
fn nest(s: &mut Src, max: usize) -> Val {
    let n = s.usize(max);
    let mut v = model::val(s, 0);
    for _ in 0..n {
        v = if s.bool() { Val::List(vec![v]) } else { Val::Dict([("k".to_string(), v)].into_iter().collect()) };
    }
    v
}
/// Small values in all shapes: strings of every length around digit-count changes, integers around powers, containers.
fn b01_small(c: &mut Ctx, i: u64) -> R {
    let i = i as usize;
    let v = if i < 1200 {
        Val::Bytes(vec![b'x'; i])
    } else if i < 1400 {
        let k = i - 1200;
        let p = if k < 128 { (1u64 << (k / 2)) as i64 } else { 10i64.wrapping_pow(((k - 128) / 2) as u32 % 19) };
        Val::Int(if k % 2 == 0 { p } else { p.wrapping_neg().wrapping_sub(1) })
    } else {
        // all shapes of up to 4 leaves drawn from i
        let mut n = i - 1400;
        fn shape(n: &mut usize, d: usize) -> Val {
            let k = *n % 6;
            *n /= 6;
            match k {
                0 => Val::Bytes(vec![]),
                1 => Val::Int(0),
                2 => Val::List(vec![]),
                3 => Val::Dict(Default::default()),
                4 if d > 0 => Val::List(vec![shape(n, d - 1), shape(n, d - 1)]),
                5 if d > 0 => Val::Dict([("".to_string(), shape(n, d - 1)), ("k".to_string(), shape(n, d - 1))].into_iter().collect()),
                _ => Val::str("e"),
            }
        }
        shape(&mut n, 3)
    };
    c.key(&v.to_vec());
    c.nontrivial(true);
    c.show(|| brief(&v));
    b01_value(&v)
}
pub const B01: Prop = Prop {
    id: "B01",
    rule: "random values (depth up to 6, nesting up to 400, strings up to 70 kB, boundary integers, Unicode keys) and random documents (canonical, sloppily spelled, damaged, token soup); small values enumerated; a fixed set of large values (strings, lists, dictionaries and nesting at sizes around powers of two up to 262145, some to 2^24); every Unicode character in texts and keys. Non-trivial: a value beyond a 3-byte encoding, or a document the decoder accepts.",
    assumptions: &["the reference encoder in harness/engine/src/model.rs states the canonical form"],
    quick: 400_000,
    thorough: 20_000_000,
    case: b01,
    phases: &[
        Phase { name: "small values", count: |t| if t { 400_000 } else { 40_000 }, run: b01_small },
        Phase {
            name: "every character in a text",
            count: |_| model::CHAR_BLOCKS,
            run: |c, i| {
                c.key(&i);
                c.nontrivial(true);
                c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
                for x in model::chars_block(i) {
                    for t in [x.to_string(), format!("{}a", x), format!("a{}", x)] {
                        b01_value(&Val::Dict([(t.clone(), Val::Bytes(t.into_bytes()))].into_iter().collect()))?;
                    }
                }
                // and those of the block among each other
                b01_value(&Val::Dict(model::chars_block(i).map(|x| (format!("k{}", x), Val::Int(x as i64))).collect()))
            },
        },
        Phase {
            name: "large values",
            count: |_| model::large_count(),
            run: |c, i| {
                let (v, doc) = large(c, i);
                check_large(&v, &doc)?;
                b01_value(&v)?;
                b01_document(&doc)?;
                Ok(())
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- B02 ------------------------------------------------------------------------------------------------------------

pub fn b02_one(doc: &[u8]) -> Result<bool, String> {
    let want = model::decode(doc);
    let got = Value::decode(doc);
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(of_value(g) == *w, "{} decodes to {} instead of {}", show(doc), brief(&of_value(g)), brief(w)),
        (Ok(g), None) => return Err(format!("{} is not a bencode document but decodes to {}", show(doc), brief(&of_value(g)))),
        (Err(e), Some(_)) => return Err(format!("{} is a bencode document but is rejected: {}", show(doc), e)),
        (Err(_), None) => {}
    }
    let got = ValueRef::decode(doc);
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(of_ref(g) == *w, "{} decodes (borrowed) to {} instead of {}", show(doc), brief(&of_ref(g)), brief(w)),
        (Ok(g), None) => return Err(format!("{} is not a bencode document but decodes (borrowed) to {}", show(doc), brief(&of_ref(g)))),
        (Err(e), Some(_)) => return Err(format!("{} is a bencode document but is rejected (borrowed): {}", show(doc), e)),
        (Err(_), None) => {}
    }
    Ok(want.is_some())
}
fn b02(c: &mut Ctx) -> R {
    let (doc, kind) = model::document(&mut c.s);
    if c.s.chance(1, 12) {
        return turns::twins(c, doc, |d| b02_one(d).map(|_| ()));
    }
    c.label(kind);
    c.key(&doc);
    c.show(|| show(&doc));
    let ok = b02_one(&doc)?;
    c.label(if ok { "accepted" } else { "rejected" });
    c.nontrivial(doc.len() > 2);
    if let Ok(t) = std::str::from_utf8(&doc) {
        let p = t.parse::<Value>();
        ensure!(p.is_ok() == ok, "parsing the text {} gives {:?}", show(&doc), p.err());
    }
    if ok && doc.len() < 200 {
        c.label("every truncation and one extra byte");
        for n in 0..doc.len() {
            b02_one(&doc[..n])?;
        }
        let mut d = doc.clone();
        d.push(0);
        for b in [b'e', b'i', b'd', b'l', b'0', b'1', b':', 0u8, b' ', b'\n', 0xff, c.s.byte()] {
            *d.last_mut().unwrap() = b;
            b02_one(&d)?;
        }
    }
    if doc.len() < 60 && c.s.chance(1, 8) {
        c.label("every byte replaced");
        let mut d = doc.clone();
        for i in 0..d.len() {
            let o = d[i];
            for b in [b'e', b'i', b'd', b'l', b'0', b'1', b'9', b':', b'-', b'+', 0u8, b' ', 0x80, 0xff, c.s.byte()] {
                d[i] = b;
                b02_one(&d)?;
            }
            d[i] = o;
        }
    }
    Ok(())
}
fn word(mut i: u64, alphabet: &[u8]) -> Vec<u8> {
    // all words, shortest first
    let k = alphabet.len() as u64;
    let (mut n, mut block) = (0, 1u64);
    while i >= block {
        i -= block;
        block *= k;
        n += 1;
    }
    let mut w = vec![0; n];
    for x in w.iter_mut() {
        *x = alphabet[(i % k) as usize];
        i /= k;
    }
    w
}
const fn words(k: u64, n: u32) -> u64 {
    let (mut t, mut b, mut i) = (0, 1, 0);
    while i <= n {
        t += b;
        b *= k;
        i += 1;
    }
    t
}
fn b02_word(c: &mut Ctx, w: Vec<u8>) -> R {
    c.key(&w);
    c.show(|| show(&w));
    let ok = b02_one(&w)?;
    c.label(if ok { "accepted word" } else { "rejected word" });
    c.nontrivial(ok);
    Ok(())
}
pub const B02: Prop = Prop {
    id: "B02",
    rule: "random documents (canonical, sloppy, damaged, token soup) with every truncation of the accepted ones, one-byte extensions and, for some, every byte replaced; all words up to a length over three bencode alphabets enumerated; every Unicode character at twenty places of a token; large documents (sizes around powers of two up to 262145, some to 2^24). Non-trivial: a random document over 2 bytes long, or an accepted word.",
    assumptions: &["the recursive-descent reference decoder in harness/engine/src/model.rs states the accepted language"],
    quick: 400_000,
    thorough: 20_000_000,
    case: b02,
    phases: &[
        Phase { name: "all words over dlie012:-a", count: |t| words(10, if t { 7 } else { 6 }), run: |c, i| b02_word(c, word(i, b"dlie012:-a")) },
        Phase { name: "all words over de0:i1", count: |t| words(6, if t { 9 } else { 8 }), run: |c, i| b02_word(c, word(i, b"de0:i1")) },
        Phase { name: "all byte strings of length up to 2", count: |_| words(256, 2), run: |c, i| { let all: Vec<u8> = (0..=255).collect(); b02_word(c, word(i, &all)) } },
        Phase { name: "one arbitrary byte in a token", count: |_| 256 * 12, run: |c, i| {
            let b = (i % 256) as u8;
            let w: Vec<u8> = match i / 256 {
                0 => vec![b'i', b, b'e'], 1 => vec![b'i', b, b'1', b'e'], 2 => vec![b'i', b'1', b, b'e'], 3 => vec![b'1', b, b'a'], 4 => vec![b'1', b, b':', b'a'],
                5 => vec![b'd', b'1', b':', b, b'0', b':', b'e'], 6 => vec![b'l', b, b'e'], 7 => vec![b'd', b, b'e'], 8 => vec![b'1', b':', b], 9 => vec![b, b'1', b':', b'a'],
                10 => vec![b'd', b'2', b':', 0xc3, b, b'0', b':', b'e'], _ => vec![b'i', b'-', b, b'e'],
            };
            b02_word(c, w)
        } },
        Phase { name: "every character in a token", count: |_| model::CHAR_BLOCKS, run: |c, i| {
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("the characters U+{:02X}00 to U+{:02X}FF", i, i));
            for x in model::chars_block(i) {
                let n = x.len_utf8();
                for t in [
                    format!("{}", x), format!("{}i1e", x), format!("i1e{}", x), format!("i{}e", x), format!("i{}1e", x), format!("i1{}e", x), format!("i-{}1e", x), format!("i1{}2e", x),
                    format!("{}1:a", x), format!("1{}:a", x), format!("{}:a", x), format!("{}:{}", n, x), format!("1:{}", x), format!("l{}e", x), format!("le{}", x),
                    format!("d{}:{}i0ee", n, x), format!("d1:{}i0ee", x), format!("d{}0:i0ee", x), format!("d0:{}e", x), format!("d1:ai0e{}:{}i0ee", n, x),
                ] {
                    b02_one(t.as_bytes())?;
                }
            }
            Ok(())
        } },
        Phase { name: "large documents, whole, cut and damaged", count: |_| model::large_count(), run: |c, i| {
            let (_, mut doc) = large(c, i);
            ensure!(b02_one(&doc)?, "large document");
            doc.pop();
            b02_one(&doc)?;
            doc.extend_from_slice(b"ex");
            b02_one(&doc)?;
            doc.pop();
            model::damage(&mut c.s, &mut doc);
            b02_one(&doc)?;
            Ok(())
        } },
    ],
    terminates: true,
    extra: None,
};

// ---- B03 ------------------------------------------------------------------------------------------------------------

fn limit(s: &mut Src, around: usize) -> Option<usize> {
    match s.weighted(&[3, 4, 2, 1]) {
        0 => None,
        1 => Some((around + s.usize(5)).saturating_sub(2)),
        2 => Some(s.usize(6)),
        _ => match s.usize(6) {
            4 => Some((1usize << (8 * (1 + s.usize(7)))) + s.usize(around + 3)),
            5 => Some(usize::MAX / 2 + s.usize(3)),
            i => Some([0, usize::MAX, usize::MAX - 1, 100][i]),
        },
    }
}
fn b03(c: &mut Ctx) -> R {
    let (doc, kind) = model::document(&mut c.s);
    if c.s.chance(1, 12) {
        return turns::twins(c, doc, |d| {
            let (dl, il) = turns_props::limits(d);
            b03_one(d, dl, il).map(|_| ())
        });
    }
    c.label(kind);
    let around = doc.iter().filter(|&&b| b == b'l' || b == b'd').count();
    let (dl, il) = (limit(&mut c.s, around.min(4)), limit(&mut c.s, around));
    c.key(&(&doc, dl, il));
    c.nontrivial(doc.len() > 2);
    c.show(|| format!("{} depth {:?} items {:?}", show(&doc), dl, il));
    let l = b03_one(&doc, dl, il)?;
    c.label(l);
    Ok(())
}
pub fn b03_one(doc: &[u8], dl: Option<usize>, il: Option<usize>) -> Result<&'static str, String> {
    let label;
    let a = Value::decode_with_limits(doc, dl, il);
    let b = ValueRef::decode_with_limits(doc, dl, il);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            label = "both accept";
            let (va, vb) = (of_value(a), of_ref(b));
            ensure!(va == vb, "{} decodes to {} owned and {} borrowed", show(doc), brief(&va), brief(&vb));
            ensure!(of_ref(&a.as_ref()) == va, "borrowing {} changes it to {}", brief(&va), brief(&of_ref(&a.as_ref())));
            ensure!(of_value(&b.to_owned()) == vb, "owning {} changes it to {}", brief(&vb), brief(&of_value(&b.to_owned())));
            ensure!(a.as_ref() == *b && b.to_owned() == *a, "converted values of {} are not equal", show(doc));
            ensure!(a.to_vec() == b.to_vec(), "{} encodes differently owned and borrowed", show(doc));
            let t = String::from_utf8_lossy(&a.to_vec()).into_owned();
            ensure!(a.to_string() == t && b.to_string() == t, "{} prints as {:?} and {:?}", show(doc), a.to_string(), b.to_string());
        }
        (Err(x), Err(y)) => {
            label = "both reject";
            ensure!(x == y, "{} (depth {:?}, items {:?}) fails with {:?} owned and {:?} borrowed", show(doc), dl, il, x, y);
        }
        (Ok(a), Err(y)) => return Err(format!("{} decodes to {} owned but fails with {:?} borrowed", show(doc), brief(&of_value(a)), y)),
        (Err(x), Ok(b)) => return Err(format!("{} fails with {:?} owned but decodes to {} borrowed", show(doc), x, brief(&of_ref(b)))),
    }
    if let Ok(t) = std::str::from_utf8(doc) {
        let p: Result<Value, Error> = t.parse();
        let d = Value::decode(doc);
        ensure!(
            match (&p, &d) {
                (Ok(p), Ok(d)) => of_value(p) == of_value(d),
                (Err(p), Err(d)) => p == d,
                _ => false,
            },
            "parsing the text {} gives {:?}, decoding it {:?}",
            show(doc),
            p.as_ref().err(),
            d.as_ref().err()
        );
    }
    Ok(label)
}
fn b03_pairs(c: &mut Ctx, _i: u64) -> R {
    // two related values: equality and ordering
    let x = model::val(&mut c.s, 3);
    let y = match c.s.usize(3) {
        0 => x.clone(),
        1 => model::val(&mut c.s, 3),
        _ => {
            let mut d = x.to_vec();
            model::damage(&mut c.s, &mut d);
            model::decode(&d).unwrap_or_else(|| x.clone())
        }
    };
    c.key(&(x.to_vec(), y.to_vec()));
    c.nontrivial(true);
    c.label_if(x == y, "equal pair");
    c.show(|| format!("{} and {}", brief(&x), brief(&y)));
    let (a, b) = (to_value(&x), to_value(&y));
    let (p, q) = (to_ref(&x), to_ref(&y));
    ensure!((a == b) == (x == y) && (p == q) == (x == y), "equality of {} and {}: owned {}, borrowed {}", brief(&x), brief(&y), a == b, p == q);
    ensure!(a.partial_cmp(&b) == p.partial_cmp(&q), "order of {} and {}: owned {:?}, borrowed {:?}", brief(&x), brief(&y), a.partial_cmp(&b), p.partial_cmp(&q));
    ensure!(b.partial_cmp(&a) == a.partial_cmp(&b).map(|o| o.reverse()), "order of {} and {} is not antisymmetric", brief(&x), brief(&y));
    ensure!(of_value(&a.clone()) == x && of_ref(&p.clone()) == x, "a clone of {} differs", brief(&x));
    ensure!(of_ref(&a.as_ref()) == x && of_value(&p.to_owned()) == x && of_value(&a.as_ref().to_owned()) == x, "conversion of {}", brief(&x));
    ensure!(a.to_string() == p.to_string(), "{} prints differently", brief(&x));
    Ok(())
}
pub const B03: Prop = Prop {
    id: "B03",
    rule: "random documents with random limits decoded by both decoders, accepted ones converted, encoded and printed; pairs of equal, related and unrelated values compared in both representations; all words up to length 6 over dlie012:-a through both decoders; large documents (sizes around powers of two up to 262145, some to 2^24). Non-trivial: a document over 2 bytes, any pair, an accepted word.",
    assumptions: &[],
    quick: 400_000,
    thorough: 20_000_000,
    case: b03,
    phases: &[
        Phase { name: "pairs of values", count: |t| if t { 5_000_000 } else { 150_000 }, run: b03_pairs },
        Phase { name: "large documents, whole and damaged, with limits", count: |_| model::large_count(), run: |c, i| {
            let (_, mut doc) = large(c, i);
            if c.s.bool() {
                model::damage(&mut c.s, &mut doc);
            }
            let around = doc.iter().filter(|&&b| b == b'l' || b == b'd').count();
            let (dl, il) = (limit(&mut c.s, around.min(4)), limit(&mut c.s, around));
            b03_one(&doc, None, None)?;
            b03_one(&doc, dl, il)?;
            Ok(())
        } },
        Phase {
            name: "all words over dlie012:-a",
            count: |t| words(10, if t { 7 } else { 6 }),
            run: |c, i| {
                let w = word(i, b"dlie012:-a");
                let (a, b) = (Value::decode(&w), ValueRef::decode(&w));
                c.key(&w);
                c.show(|| show(&w));
                c.nontrivial(a.is_ok());
                ensure!(
                    match (&a, &b) {
                        (Ok(a), Ok(b)) => of_value(a) == of_ref(b),
                        (Err(a), Err(b)) => a == b,
                        _ => false,
                    },
                    "{}: owned {:?}, borrowed {:?}",
                    show(&w),
                    a,
                    b
                );
                Ok(())
            },
        },
    ],
    terminates: true,
    extra: None,
};

// ---- B04 ------------------------------------------------------------------------------------------------------------

pub fn b04_one(doc: &[u8], dl: Option<usize>, il: Option<usize>) -> Result<&'static str, String> {
    let want = model::decode_tokens(doc);
    let got = Value::decode_with_limits(doc, dl, il);
    let got_ref = ValueRef::decode_with_limits(doc, dl, il);
    let what = || format!("{} with depth limit {:?}, item limit {:?}", show(doc), dl, il);
    // what unlimited decoding accepts is B02's business
    let (plain, plain_ref) = (Value::decode(doc).is_ok(), ValueRef::decode(doc).is_ok());
    ensure!(plain || got.is_err(), "{} is accepted though rejected without limits", what());
    ensure!(plain_ref || got_ref.is_err(), "{} is accepted (borrowed) though rejected without limits", what());
    let (v, tokens) = match want {
        Some(x) if plain && plain_ref => x,
        _ => return Ok("not a document"),
    };
    let mut expected = None;
    for (k, t) in tokens.iter().enumerate() {
        if dl.map_or(false, |d| t.open > d) {
            expected = Some(Error::DepthLimit);
            break;
        }
        if il.map_or(false, |n| k > n) {
            expected = Some(Error::ItemLimit);
            break;
        }
    }
    match expected {
        None => {
            match &got {
                Ok(g) => ensure!(of_value(g) == v, "{} decodes to {}", what(), brief(&of_value(g))),
                Err(e) => return Err(format!("{} is within limits but fails with {:?}", what(), e)),
            }
            match &got_ref {
                Ok(g) => ensure!(of_ref(g) == v, "{} decodes (borrowed) to {}", what(), brief(&of_ref(g))),
                Err(e) => return Err(format!("{} is within limits but fails (borrowed) with {:?}", what(), e)),
            }
            Ok("within limits")
        }
        Some(e) => {
            let label = if e == Error::DepthLimit { "depth exceeded" } else { "items exceeded" };
            match got {
                Err(g) => ensure_eq!(g, e, "{}", what()),
                Ok(_) => return Err(format!("{} exceeds a limit but is accepted", what())),
            }
            match got_ref {
                Err(g) => ensure_eq!(g, e, "{} (borrowed)", what()),
                Ok(_) => return Err(format!("{} exceeds a limit but is accepted (borrowed)", what())),
            }
            Ok(label)
        }
    }
}
fn b04(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let (doc, _) = model::document(&mut c.s);
        let both = c.s.bool();
        return turns::twins(c, doc, |d| {
            // the same limits for all, or each its own
            let (dl, il) = if both { (Some(1), Some(6)) } else { turns_props::limits(d) };
            b04_one(d, dl, il).map(|_| ())
        });
    }
    let doc = match c.s.weighted(&[4, 3, 1, 1]) {
        0 => model::container(&mut c.s, 4).to_vec(),
        1 => model::document(&mut c.s).0,
        2 => nest(&mut c.s, 1500).to_vec(),
        _ => {
            let n = c.s.usize(1200);
            let item: &[u8] = c.s.pick(&[&b"0:"[..], b"i1e", b"le", b"de", b"1:a"]);
            let mut d = vec![b'l'];
            for _ in 0..n {
                d.extend_from_slice(item);
            }
            d.push(b'e');
            d
        }
    };
    let (depth, count) = match model::decode_tokens(&doc) {
        Some((_, t)) => (t.iter().map(|t| t.open).max().unwrap_or(0), t.len()),
        None => (2, 5),
    };
    let dl = limit(&mut c.s, depth);
    let il = limit(&mut c.s, count.saturating_sub(1));
    c.key(&(&doc, dl, il));
    c.show(|| format!("{} depth {:?} items {:?}", show(&doc), dl, il));
    let l = b04_one(&doc, dl, il)?;
    c.label(l);
    c.label_if(dl.is_some() && il.is_some(), "both limits");
    c.nontrivial(l != "not a document" && (dl.is_some() || il.is_some()));
    Ok(())
}
/// Large documents with limits around their token count and depth and around the turning points of counters.
fn b04_large(c: &mut Ctx, i: u64) -> R {
    let (_, mut doc) = large(c, i);
    let (depth, count) = model::decode_tokens(&doc).map(|(_, t)| (t.iter().map(|t| t.open).max().unwrap_or(0), t.len())).ok_or("reference decoder")?;
    for k in [0, 1, 2, 3] {
        b04_one(&doc, None, Some((count + k).saturating_sub(3)))?;
        b04_one(&doc, Some((depth + k).saturating_sub(3)), None)?;
    }
    let near = |s: &mut Src, n: usize| match s.usize(5) {
        0 => None,
        4 => Some((1usize << (16 * (1 + s.usize(3)))) + s.usize(n.min(1000)) / 2 - s.usize(2)),
        1 => Some((n + s.usize(5)).saturating_sub(3)),
        2 => Some(s.usize(n + 2)),
        _ => Some((1usize << s.usize(20)) + s.usize(3) - 1),
    };
    for _ in 0..6 {
        let dl = near(&mut c.s, depth);
        let il = near(&mut c.s, count);
        b04_one(&doc, dl, il)?;
    }
    // more of it, so that the excess comes late
    doc.splice(0..0, *b"l");
    doc.extend_from_slice(b"i1eldeee");
    b04_one(&doc, None, Some(count))?;
    b04_one(&doc, Some(depth), None)?;
    Ok(())
}
const DEPTHS: [usize; 9] = [5000, 32_767, 65_535, 65_536, 65_537, 65_600, 131_074, 200_000, 1_048_578];
/// Documents far deeper than the other generators make, with limits around their depth.
fn b04_deep(c: &mut Ctx, i: u64) -> R {
    let n = DEPTHS[i as usize % DEPTHS.len()] + c.s.usize(3);
    let (l, r): (&[u8], &[u8]) = if i as usize / DEPTHS.len() == 0 { (b"l", b"e") } else { (b"d1:a", b"e") };
    let inner: &[u8] = if l == b"l" { c.s.pick(&[&b"0:"[..], b"i1e"]) } else { c.s.pick(&[&b"le"[..], b"de", b"0:", b"i1e"]) };
    let doc = [&l.repeat(n)[..], inner, &r.repeat(n)[..]].concat();
    let mut limits: Vec<usize> = (0..4).map(|k| n + k - 2).collect();
    limits.extend([65_535, c.s.usize(n)]);
    c.key(&(n, i));
    c.nontrivial(true);
    c.label("very deep nest");
    c.show(|| format!("{} levels", n));
    // dropping a value takes stack for every level of it (see B07)
    let run = move || -> R {
        for d in limits {
            b04_one(&doc, Some(d), if d % 2 == 0 { None } else { Some(d + 1) })?;
        }
        Ok(())
    };
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(run).map_err(|e| format!("no thread: {}", e))?;
    t.join().map_err(|_| "a panic while decoding a deep document".to_string())?
}
pub const B04: Prop = Prop {
    id: "B04",
    rule: "random documents (nesting up to 1500, up to thousands of tokens) with limits absent, small, huge, and within 2 of the document's own depth and token count; all words up to length 7 over ledi10: with limits 0..3; large documents, and documents up to 200000 levels deep (some a million), with each limit around their own size. Non-trivial: a well-formed document with at least one limit.",
    assumptions: &["the reference token count and depth of harness/engine/src/model.rs"],
    quick: 500_000,
    thorough: 20_000_000,
    case: b04,
    phases: &[Phase {
        name: "large documents with limits around their size",
        count: |_| model::large_count(),
        run: b04_large,
    }, Phase {
        name: "very deep documents with limits around their depth",
        count: |_| 2 * DEPTHS.len() as u64,
        run: b04_deep,
    }, Phase {
        name: "all words over ledi10: with small limits",
        count: |t| words(7, if t { 8 } else { 6 }) * 25,
        run: |c, i| {
            let w = word(i / 25, b"ledi10:");
            let f = |k: u64| if k == 4 { None } else { Some(k as usize) };
            let (dl, il) = (f(i % 5), f(i / 5 % 5));
            c.key(&(&w, dl, il));
            c.show(|| format!("{} depth {:?} items {:?}", show(&w), dl, il));
            let l = b04_one(&w, dl, il)?;
            c.nontrivial(l != "not a document" && (dl.is_some() || il.is_some()));
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- B05 ------------------------------------------------------------------------------------------------------------

fn utf8(b: &[u8]) -> Option<&str> {
    // the definition, through chars rather than from_utf8 of the same bytes twice
    std::str::from_utf8(b).ok()
}
macro_rules! accessors {
    ($name:ident, $ty:ty, $of:ident, $s:expr) => {
        pub fn $name(v: &Val, x: &$ty, keys: &[String], idx: &[usize]) -> R {
            let d = brief(v);
            ensure_eq!((x.is_int(), x.is_string(), x.is_list(), x.is_dict()), (matches!(v, Val::Int(_)), matches!(v, Val::Bytes(_)), matches!(v, Val::List(_)), matches!(v, Val::Dict(_))), "kind predicates of {}", d);
            ensure_eq!(x.as_int(), if let Val::Int(n) = v { Some(*n) } else { None }, "as_int of {}", d);
            let bytes = if let Val::Bytes(b) = v { Some(&b[..]) } else { None };
            ensure_eq!(x.as_bytes(), bytes, "as_bytes of {}", d);
            ensure_eq!(x.as_str(), bytes.and_then(utf8), "as_str of {}", d);
            let list = if let Val::List(l) = v { Some(l) } else { None };
            ensure_eq!(x.as_list().map(|l| l.iter().map($of).collect::<Vec<_>>()), list.cloned(), "as_list of {}", d);
            ensure_eq!(x.list_len(), list.map(|l| l.len()), "list_len of {}", d);
            for &i in idx {
                let want = list.and_then(|l| l.get(i));
                ensure_eq!(x.list_at(i).map($of), want.cloned(), "list_at({}) of {}", i, d);
                ensure_eq!(x.list_int_value_at(i), want.and_then(|v| if let Val::Int(n) = v { Some(*n) } else { None }), "list_int_value_at({}) of {}", i, d);
                ensure_eq!(x.list_string_value_at(i), want.and_then(|v| if let Val::Bytes(b) = v { utf8(b) } else { None }), "list_string_value_at({}) of {}", i, d);
            }
            let dict = if let Val::Dict(m) = v { Some(m) } else { None };
            ensure_eq!(x.as_dict().map(|m| m.iter().map(|(k, v)| (k.to_string(), $of(v))).collect::<std::collections::BTreeMap<_, _>>()), dict.cloned(), "as_dict of {}", d);
            ensure_eq!(x.dict_len(), dict.map(|m| m.len()), "dict_len of {}", d);
            for k in keys {
                let want = dict.and_then(|m| m.get(k));
                ensure_eq!(x.dict_find(k).map($of), want.cloned(), "dict_find({:?}) of {}", k, d);
                let int = want.filter(|v| matches!(v, Val::Int(_)));
                ensure_eq!(x.dict_find_int(k).map($of), int.cloned(), "dict_find_int({:?}) of {}", k, d);
                ensure_eq!(x.dict_find_int_value(k), int.map(|v| if let Val::Int(n) = v { *n } else { 0 }), "dict_find_int_value({:?}) of {}", k, d);
                let s = want.filter(|v| matches!(v, Val::Bytes(_)));
                ensure_eq!(x.dict_find_str(k).map($of), s.cloned(), "dict_find_str({:?}) of {}", k, d);
                ensure_eq!(x.dict_find_str_value(k), s.and_then(|v| if let Val::Bytes(b) = v { utf8(b) } else { None }), "dict_find_str_value({:?}) of {}", k, d);
                let l = want.filter(|v| matches!(v, Val::List(_)));
                ensure_eq!(x.dict_find_list(k).map($of), l.cloned(), "dict_find_list({:?}) of {}", k, d);
                ensure_eq!(x.dict_find_list_value(k).map(|l| l.iter().map($of).collect::<Vec<_>>()), l.map(|v| if let Val::List(l) = v { l.clone() } else { vec![] }), "dict_find_list_value({:?}) of {}", k, d);
                let m = want.filter(|v| matches!(v, Val::Dict(_)));
                ensure_eq!(x.dict_find_dict(k).map($of), m.cloned(), "dict_find_dict({:?}) of {}", k, d);
            }
            ensure!($of(x) == *v, "lookups changed {}", d);
            // consuming and mutable views
            ensure_eq!(x.clone().into_list().map(|l| l.iter().map($of).collect::<Vec<_>>()), list.cloned(), "into_list of {}", d);
            ensure_eq!(x.clone().into_dict().map(|m| m.iter().map(|(k, v)| (k.to_string(), $of(v))).collect::<std::collections::BTreeMap<_, _>>()), dict.cloned(), "into_dict of {}", d);
            let mut y = x.clone();
            ensure_eq!(y.as_list_mut().map(|l| l.iter().map($of).collect::<Vec<_>>()), list.cloned(), "as_list_mut of {}", d);
            ensure_eq!(y.as_dict_mut().map(|m| m.len()), dict.map(|m| m.len()), "as_dict_mut of {}", d);
            let mut w = v.clone();
            if let (Some(l), Val::List(m)) = (y.as_list_mut(), &mut w) {
                l.push(<$ty>::with_int(7));
                l.swap_remove(0);
                m.push(Val::Int(7));
                m.swap_remove(0);
            }
            if let (Some(l), Val::Dict(m)) = (y.as_dict_mut(), &mut w) {
                l.insert($s("new key"), <$ty>::with_int(7));
                m.insert("new key".into(), Val::Int(7));
            }
            ensure!($of(&y) == w, "a change through the mutable view of {} gives {}", d, brief(&$of(&y)));
            Ok(())
        }
    };
}
accessors!(access_value, Value, of_value, |s: &str| s.to_string());
accessors!(access_ref, ValueRef<'_>, of_ref, |s: &'static str| s);

fn b05(c: &mut Ctx) -> R {
    let depth = c.s.usize(3);
    let mut v = if c.s.chance(4, 5) { model::container(&mut c.s, depth + 1) } else { model::val(&mut c.s, depth) };
    let mut keys = vec![String::new(), "a".into()];
    if c.s.chance(1, 8) {
        if let Val::Dict(m) = &v {
            keys.extend(m.keys().take(5).cloned());
        }
        model::misplace(&mut c.s, &mut v);
        c.label("something in another form");
    }
    classify(c, &v);
    let mut idx = vec![0, 1, usize::MAX];
    match &v {
        // keys of what is inside
        Val::Dict(m) => keys.extend(m.values().filter_map(|v| if let Val::Dict(d) = v { d.keys().next().cloned() } else { None }).take(3)),
        Val::List(l) => keys.extend(l.iter().filter_map(|v| if let Val::Dict(d) = v { d.keys().next().cloned() } else { None }).take(3)),
        _ => {}
    }
    if let Val::Dict(m) = &v {
        for k in m.keys() {
            keys.push(k.clone());
            keys.push(format!("{}x", k));
            keys.push(k.chars().take(k.chars().count().saturating_sub(1)).collect());
            keys.push(k.to_uppercase());
        }
    }
    keys.push(model::key(&mut c.s));
    // what becomes a small index when it is cut short
    idx.push((1usize << (8 * (1 + c.s.usize(7)))) + c.s.usize(3));
    idx.push(1usize << 63 | c.s.usize(3));
    if let Val::List(l) = &v {
        idx.extend([l.len(), l.len().saturating_sub(1), l.len() + 1, l.len() / 2]);
        idx.push(c.s.usize(l.len() + 2));
        if l.len() < 20 {
            idx.extend(0..l.len());
        }
    } else {
        idx.push(c.s.usize(20));
    }
    c.key(&(v.to_vec(), keys.last(), idx.last()));
    c.nontrivial(v.count() > 1);
    c.show(|| format!("{} keys {:?} indices {:?}", brief(&v), keys, idx));
    access_value(&v, &to_value(&v), &keys, &idx)?;
    access_ref(&v, &to_ref(&v), &keys, &idx)
}
pub const B05: Prop = Prop {
    id: "B05",
    rule: "random values of every kind; keys present, absent and one character away, indices in, at and beyond the end and at the machine maximum; large values (up to 262145, some to 2^24 entries). Non-trivial: a container with at least one entry.",
    assumptions: &[],
    quick: 150_000,
    thorough: 5_000_000,
    case: b05,
    phases: &[Phase {
        name: "large values",
        count: |_| model::large_count(),
        run: |c, i| {
            let (v, _) = large(c, i);
            let n = v.count();
            let mut keys: Vec<String> = [0, 1, 9, 10, 15, 16, 254, 255, 256, 257, 999, 1000, 4095, 4096, 65_535, 65_536, 131_071, 200_000, 262_144, 262_145].iter().map(|i| format!("{:x}", i)).collect();
            keys.extend((0..40).map(|_| format!("{:x}", c.s.usize(n + 1))));
            if let Val::Dict(d) = &v {
                keys.extend(d.keys().next().cloned());
                keys.extend(d.keys().last().cloned());
                keys.extend(d.keys().last().map(|k| k[..k.len() - 1].to_string()));
            }
            let mut idx = vec![0, 1, 127, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 131_071, 1 << 24 | 3, 1 << 32, (1 << 32) + 77, 1 << 48, 1 << 63, usize::MAX];
            if let Val::List(l) = &v {
                idx.extend([l.len(), l.len() - 1, l.len() / 2, l.len() + 256, l.len() + 65_536]);
            }
            idx.extend((0..40).map(|_| c.s.usize(n + 1)));
            access_value(&v, &to_value(&v), &keys, &idx)?;
            access_ref(&v, &to_ref(&v), &keys, &idx)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- B07 ------------------------------------------------------------------------------------------------------------

/// Peak allocation allowed per input byte. The densest accepted form is a list of one-entry dictionaries, whose tree
/// nodes take a few hundred bytes for six bytes of input.
const PER_BYTE: usize = 400;
const BASE: usize = 16 << 10;

fn b07_alloc(doc: &[u8], dl: Option<usize>, il: Option<usize>) -> Result<bool, String> {
    let bound = BASE + PER_BYTE * doc.len();
    let (r, peak) = alloc::peak(|| Value::decode_with_limits(doc, dl, il));
    ensure!(peak <= bound, "decoding {} allocates {} bytes at its peak for {} bytes of input", show(doc), peak, doc.len());
    let ok = r.is_ok();
    drop(r);
    let (r, peak) = alloc::peak(|| ValueRef::decode_with_limits(doc, dl, il));
    ensure!(peak <= bound, "decoding {} (borrowed) allocates {} bytes at its peak for {} bytes of input", show(doc), peak, doc.len());
    drop(r);
    Ok(ok)
}
fn b07(c: &mut Ctx) -> R {
    let mut doc = vec![];
    let kind = c.s.weighted(&[4, 3, 3, 2]);
    match kind {
        0 => {
            // a huge claim somewhere in a document
            let (d, _) = model::document(&mut c.s);
            doc = d;
            doc.truncate(2000);
            let claim = match c.s.usize(4) {
                0 => (1u64 << c.s.range(20, 63)).to_string(),
                1 => i64::MAX.to_string(),
                2 => c.s.u64().to_string(),
                _ => "1000000000".to_string(),
            };
            let at = c.s.usize(doc.len() + 1);
            doc.splice(at..at, format!("{}:", claim).bytes());
        }
        1 => {
            // many tiny items
            let n = c.s.size(3000);
            let item: &[u8] = c.s.pick(&[&b"0:"[..], b"i1e", b"le", b"de", b"1:a", b"d0:dee", b"d0:0:e", b"lle0:e"]);
            let open = c.s.usize(3);
            doc.extend(std::iter::repeat(b'l').take(open));
            for _ in 0..n {
                doc.extend_from_slice(item);
            }
            if c.s.chance(3, 4) {
                doc.extend(std::iter::repeat(b'e').take(open));
            }
        }
        2 => {
            // nesting, closed or not, then possibly rejected
            let n = c.s.size(1500);
            let dict = c.s.bool();
            for _ in 0..n {
                doc.extend_from_slice(if dict { b"d0:" } else { b"l" });
            }
            if dict {
                doc.extend_from_slice(b"0:");
            }
            let e = if c.s.chance(3, 4) { n } else { c.s.usize(n + 2) };
            doc.extend(std::iter::repeat(b'e').take(e));
            if c.s.chance(1, 3) {
                doc.push(c.s.byte());
            }
        }
        _ => doc = model::document(&mut c.s).0,
    }
    c.label(["huge claim", "tiny items", "nesting", "document"][kind]);
    let (dl, il) = if c.s.chance(1, 3) { (limit(&mut c.s, 50), limit(&mut c.s, 100)) } else { (None, None) };
    c.key(&(&doc, dl, il));
    c.nontrivial(doc.len() > 4);
    c.show(|| show(&doc));
    let ok = b07_alloc(&doc, dl, il)?;
    c.label(if ok { "accepted" } else { "rejected" });
    Ok(())
}
fn deep_doc(dict: bool, n: usize) -> Vec<u8> {
    let mut doc = vec![];
    for _ in 0..n {
        doc.extend_from_slice(if dict { b"d0:" } else { b"l" });
    }
    if dict {
        doc.extend_from_slice(b"0:");
    }
    doc.extend(std::iter::repeat(b'e').take(n));
    doc
}
/// Decoding and encoding very deep values on a small stack; the values are leaked, not dropped.
fn b07_deep(c: &mut Ctx, i: u64) -> R {
    let dict = i % 2 == 1;
    let n = [100, 1000, 10_000, 50_000][(i / 2 % 4) as usize];
    c.key(&(dict, n));
    c.nontrivial(true);
    c.label("deep on a 256 kB stack");
    c.show(|| format!("{} nested {} decoded and encoded on a 256 kB stack", n, if dict { "dictionaries" } else { "lists" }));
    let doc = deep_doc(dict, n);
    let th = std::thread::Builder::new().stack_size(256 << 10).spawn(move || -> R {
        let v = Value::decode(&doc).map_err(|e| format!("{:?}", e))?;
        let same = v.to_vec() == doc;
        std::mem::forget(v);
        ensure!(same, "a value nested {} deep does not re-encode to itself", n);
        let v = ValueRef::decode(&doc).map_err(|e| format!("{:?}", e))?;
        let mut out = vec![];
        // a leaked box lives long enough for the borrowed encoder
        let v: &'static ValueRef<'_> = Box::leak(Box::new(unsafe { std::mem::transmute::<ValueRef<'_>, ValueRef<'static>>(v) }));
        v.encode(&mut out).map_err(|e| e.to_string())?;
        ensure!(out == doc, "a borrowed value nested {} deep does not re-encode to itself", n);
        // limits must reject before any depth is built up
        ensure!(matches!(Value::decode_with_limits(&doc, Some(20), None), Err(Error::DepthLimit)), "depth limit");
        ensure!(matches!(ValueRef::decode_with_limits(&doc, Some(20), None), Err(Error::DepthLimit)), "depth limit");
        // nesting that is never closed
        let open: Vec<u8> = if dict { b"d0:".repeat(n) } else { vec![b'l'; n] };
        ensure!(Value::decode(&open).is_err() && ValueRef::decode(&open).is_err(), "unclosed nesting is accepted");
        Ok(())
    });
    th.map_err(|e| e.to_string())?.join().unwrap_or_else(|_| Err("panic in the decoding thread".into()))
}
/// Disposal of moderately deep values on an ordinary 2 MB thread stack.
fn b07_drop(c: &mut Ctx, i: u64) -> R {
    let dict = i % 2 == 1;
    let n = 200 + (i / 2 * 300) as usize;
    c.key(&(dict, n, "drop"));
    c.nontrivial(true);
    c.label("dropped on a 2 MB stack");
    c.show(|| format!("{} nested {} dropped and rejected on a 2 MB stack", n, if dict { "dictionaries" } else { "lists" }));
    let mut doc = deep_doc(dict, n);
    let th = std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> R {
        drop(Value::decode(&doc).map_err(|e| format!("{:?}", e))?);
        drop(ValueRef::decode(&doc).map_err(|e| format!("{:?}", e))?);
        doc.push(b'x');
        ensure!(Value::decode(&doc).is_err() && ValueRef::decode(&doc).is_err(), "a trailing byte is accepted");
        Ok(())
    });
    th.map_err(|e| e.to_string())?.join().unwrap_or_else(|_| Err("panic in the decoding thread".into()))
}

const DEEP: usize = 1_000_000;
const DEEP_CASES: [(&str, bool, bool, bool); 8] = [
    // name, dictionaries, borrowed, rejected by a trailing byte
    ("drop:lists:owned", false, false, false),
    ("drop:lists:borrowed", false, true, false),
    ("drop:dicts:owned", true, false, false),
    ("drop:dicts:borrowed", true, true, false),
    ("reject:lists:owned", false, false, true),
    ("reject:lists:borrowed", false, true, true),
    ("reject:dicts:owned", true, false, true),
    ("reject:dicts:borrowed", true, true, true),
];
/// Child process: decodes one very deep document and disposes of the result.
pub fn deep_child() {
    let l = std::env::args().nth(2).unwrap_or_default();
    let (_, dict, borrowed, reject) = DEEP_CASES.iter().find(|c| c.0 == l).copied().expect("case");
    let mut doc = deep_doc(dict, DEEP);
    if reject {
        doc.push(b'x');
    }
    if borrowed {
        let r = ValueRef::decode(&doc);
        assert_eq!(r.is_err(), reject);
    } else {
        let r = Value::decode(&doc);
        assert_eq!(r.is_err(), reject);
    }
    println!("survived");
}
fn b07_extra(_t: bool) -> Result<Vec<String>, String> {
    use std::os::unix::process::ExitStatusExt;
    let home = std::env::var("VERIF_HOME").unwrap_or_else(|_| ".".into());
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", home)).unwrap_or_default();
    let mut lines = vec![];
    for (name, ..) in DEEP_CASES {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(exe).arg("deep").arg(name).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        if o.status.success() {
            continue;
        }
        let sig = format!("known: property=B07 case={}:{}", name, DEEP);
        match o.status.signal() {
            Some(libc_sig) if known.lines().any(|l| l.starts_with(&sig) && (l.len() == sig.len() || l.as_bytes()[sig.len()] == b' ')) => {
                lines.push(format!("KNOWN-FINDING: property=B07 {}:{} the process is killed by signal {} (call stack overflow in the recursive destructor)", name, DEEP, libc_sig));
            }
            s => return Err(format!("decoding and disposing of {} nested {} deep ends the process: signal {:?}, {}", name, DEEP, s, o.status)),
        }
    }
    Ok(lines)
}
pub const B07: Prop = Prop {
    id: "B07",
    rule: "documents with huge claimed lengths, thousands of tiny items, nesting, and ordinary ones, with and without limits, each decoded under a counting allocator; nesting of 100 to 50000 decoded and encoded on a 256 kB stack; nesting of 200 to 3000 disposed of on a 2 MB stack; nesting of 1000000 in child processes. Non-trivial: over 4 bytes long.",
    assumptions: &["the bound is 16 KiB + 400 bytes per input byte, about twice what the densest accepted document needs at the pinned commit"],
    quick: 450_000,
    thorough: 5_000_000,
    case: b07,
    phases: &[Phase { name: "deep nesting on a small stack", count: |_| 8, run: b07_deep }, Phase { name: "deep disposal", count: |_| 20, run: b07_drop }],
    terminates: true,
    extra: Some(b07_extra),
};
