//! B08 and C08: work in keeping with the length of what is given.
use crate::bencode_props::{to_ref, to_value};
use bencode::{Value, ValueRef};
use engine::model::{self, Val};
use engine::pace::{time, within};
use engine::{show, Ctx, Prop, R};
use std::hint::black_box;

/// Some ten times what the densest input needs.
fn limit(n: usize) -> f64 {
    0.15 + n as f64 * 1.5e-6
}

/// A long document made of many small parts, and whether it is a whole one.
fn long(c: &mut Ctx) -> (Vec<u8>, &'static str) {
    let most = *c.s.pick(&[200_000, 400_000, 700_000]);
    let unit = match c.s.weighted(&[2, 3, 2]) {
        0 => {
            let depth = c.s.usize(3);
            model::val(&mut c.s, depth).to_vec()
        }
        1 => c.s.pick(&[&b"le"[..], b"de", b"0:", b"i0e", b"1:a", b"li0ee", b"d0:lee", b"llelee", b"d1:ai1e1:bi2ee", b"i-9223372036854775808e", b"9:spam eggs"]).to_vec(),
        _ => {
            let n = c.s.usize(300);
            Val::Bytes(vec![b'x'; n]).to_vec()
        }
    };
    let unit = if unit.len() > 2000 { b"le".to_vec() } else { unit };
    let mut d = vec![];
    let shape = c.s.usize(9);
    let name = match shape {
        0 => {
            d.push(b'l');
            while d.len() < most {
                d.extend_from_slice(&unit);
            }
            d.push(b'e');
            "a long list"
        }
        1 | 2 | 3 => {
            // keys in order, in the opposite order, all the same or with a long common start
            let common = if shape == 3 { c.s.usize(200) } else { 0 };
            let down = c.s.bool();
            let same = c.s.chance(1, 6);
            let n = most / (common + 9 + unit.len());
            d.push(b'd');
            for i in 0..n {
                let i = if same { 0 } else if down { n - i } else { i };
                d.extend_from_slice(format!("{}:{}{:07}", common + 7, "k".repeat(common), i).as_bytes());
                d.extend_from_slice(&unit);
            }
            d.push(b'e');
            if same {
                "a dictionary of one key again and again"
            } else if down {
                "a dictionary with keys in falling order"
            } else {
                "a dictionary"
            }
        }
        4 => {
            // nests side by side
            let deep = 1 + c.s.usize(1500);
            let (open, shut) = *c.s.pick(&[("l", "e"), ("d0:", "e")]);
            d.push(b'l');
            while d.len() < most {
                d.extend_from_slice(open.repeat(deep).as_bytes());
                d.extend_from_slice(&unit);
                d.extend_from_slice(shut.repeat(deep).as_bytes());
            }
            d.push(b'e');
            "nests side by side"
        }
        5 => {
            // a nest with something on every level
            let deep = 1 + c.s.usize(1500);
            let per = most / deep / unit.len() + 1;
            let before = c.s.bool();
            for _ in 0..deep {
                d.push(b'l');
                if before {
                    d.extend_from_slice(&unit.repeat(per));
                }
            }
            for _ in 0..deep {
                if !before {
                    d.extend_from_slice(&unit.repeat(per));
                }
                d.push(b'e');
            }
            "a nest with much on every level"
        }
        7 => {
            // containers never closed, with much in the innermost
            let (open, deep) = *c.s.pick(&[(&b"l"[..], 1), (b"d1:k", 4)]);
            while d.len() < most / 2 {
                d.extend_from_slice(open);
            }
            let unit = if c.s.bool() { unit } else { b"le".to_vec() };
            if deep == 4 {
                d.extend_from_slice(b"1:kl");
            }
            while d.len() < most {
                d.extend_from_slice(&unit);
            }
            return (d, "a nest never closed");
        }
        6 => {
            // long lists of short lists
            let per = 1 + c.s.usize(300);
            d.push(b'l');
            while d.len() < most {
                d.push(b'l');
                d.extend_from_slice(&unit.repeat(per));
                d.push(b'e');
            }
            d.push(b'e');
            "lists in a list"
        }
        _ => {
            let n = most * 2;
            d.extend_from_slice(format!("{}:", n).as_bytes());
            d.resize(d.len() + n, b'7');
            "a long string"
        }
    };
    if c.s.chance(1, 4) {
        // wrong at the very end
        match c.s.usize(4) {
            0 => {
                d.pop();
            }
            1 => d.push(b'e'),
            2 => {
                d.pop();
                d.extend_from_slice(b"99999999999:x");
            }
            _ => {
                d.pop();
                d.extend_from_slice(&b"9".repeat(most / 4));
            }
        }
    }
    (d, name)
}

fn b08(c: &mut Ctx) -> R {
    let (doc, name) = long(c);
    c.key(&doc);
    c.label(name);
    c.nontrivial(doc.len() > 10_000);
    c.show(|| format!("{} of {} bytes: {}", name, doc.len(), show(&doc)));
    let n = doc.len();
    let l = limit(n);
    let what = |op: &str| format!("{} ({}, {} bytes: {})", op, name, n, show(&doc[..n.min(200)]));
    within(&what("decoding (owned)"), l, || drop(black_box(Value::decode(&doc))))?;
    within(&what("decoding (borrowed)"), l, || drop(black_box(ValueRef::decode(&doc))))?;
    let (dl, il) = (if c.s.bool() { Some(*c.s.pick(&[3000, n])) } else { None }, if c.s.bool() { Some(n) } else { None });
    within(&what("decoding within limits (owned)"), l, || drop(black_box(Value::decode_with_limits(&doc, dl, il))))?;
    within(&what("decoding within limits (borrowed)"), l, || drop(black_box(ValueRef::decode_with_limits(&doc, dl, il))))?;
    let v = match model::decode(&doc) {
        Some(v) => v,
        None => {
            c.label("rejected");
            return Ok(());
        }
    };
    c.label("accepted");
    let (a, b) = (to_value(&v), to_ref(&v));
    within(&what("encoding (owned)"), l, || drop(black_box(a.to_vec())))?;
    within(&what("encoding (borrowed)"), l, || drop(black_box(b.to_vec())))?;
    within(&what("printing"), l * 2.0, || drop(black_box((a.to_string(), b.to_string()))))?;
    within(&what("copying"), l, || drop(black_box((a.clone(), b.clone()))))?;
    within(&what("borrowing and owning"), l * 2.0, || drop(black_box((a.as_ref(), b.to_owned()))))?;
    let (a2, b2) = (a.clone(), b.clone());
    within(&what("comparing"), l, || {
        black_box((a == a2, b == b2, a.partial_cmp(&a2), b.partial_cmp(&b2)));
    })?;
    match &v {
        Val::List(items) => within(&what("looking up every item"), l * 2.0, || {
            for i in 0..items.len() {
                black_box((a.list_at(i).is_some(), b.list_at(i).is_some(), a.list_int_value_at(i), b.list_int_value_at(i)));
                black_box((a.list_string_value_at(i), b.list_string_value_at(i), a.list_len(), b.list_len()));
                black_box((a.as_list().is_some(), b.as_list().is_some(), a.is_list(), b.is_list()));
            }
        }),
        Val::Dict(d) => within(&what("looking up every key"), l * 6.0, || {
            for k in d.keys() {
                black_box((a.dict_find(k).is_some(), b.dict_find(k).is_some(), a.dict_find_int_value(k), b.dict_find_int_value(k)));
                black_box((a.dict_find_str_value(k), b.dict_find_str_value(k), a.dict_find_list(k).is_some(), b.dict_find_list(k).is_some()));
                black_box((a.dict_find_dict(k).is_some(), b.dict_find_dict(k).is_some()));
                black_box((a.dict_find_int(k).is_some(), b.dict_find_int(k).is_some(), a.dict_find_str(k).is_some(), b.dict_find_str(k).is_some()));
                black_box((a.dict_find_list_value(k).is_some(), b.dict_find_list_value(k).is_some(), a.dict_len(), b.dict_len()));
                black_box((a.as_dict().is_some(), b.as_dict().is_some(), a.is_dict(), b.is_dict()));
            }
        }),
        _ => Ok(()),
    }
}
pub const B08: Prop = Prop {
    id: "B08",
    rule: "documents of 200 kB to 1.4 MB made of many small parts: long lists, dictionaries with keys in rising or falling order, all alike or with a long common start, nests side by side, with much on every level and never closed, lists in lists, one long string; some wrong at the very end. Decoding both ways with and without limits, encoding, printing, copying, comparing and a lookup of every entry, each under a limit of CPU time. Non-trivial: over 10000 bytes.",
    assumptions: &["0.15 s + 1.5 microseconds per byte (two to six times that where several operations are timed together), over ten times what the densest document needs here; the least of four runs counts"],
    quick: 240,
    thorough: 20_000,
    case: b08,
    phases: &[],
    terminates: true,
    extra: None,
};

fn c08(c: &mut Ctx) -> R {
    use common::hex;
    use common::sha1::Sha1Hash;
    let n = 1 << (16 + c.s.usize(6));
    let n = n + c.s.usize(100);
    let style = c.s.usize(3);
    let salt = c.s.byte();
    let b: Vec<u8> = match style {
        0 => vec![salt; n],
        1 => (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(salt)).collect(),
        _ => (0..n).map(|i| ((i * i) >> 7) as u8 ^ salt).collect(),
    };
    c.key(&(n, style, salt));
    c.nontrivial(true);
    c.label(["one byte over and over", "counting", "mixed"][style]);
    c.show(|| format!("{} bytes, style {}, {}", n, style, salt));
    let l = limit(n);
    within(&format!("hashing {} bytes", n), l, || drop(black_box(Sha1Hash::update(&b))))?;
    within(&format!("hex text of {} bytes", n), l, || drop(black_box(hex::to_hex(&b))))?;
    let (_, t) = time(|| model::hex(&b).into_bytes());
    let mut t = t;
    if c.s.chance(1, 4) {
        *t.last_mut().unwrap() = b'g';
    }
    let mut out = vec![0; n + 1];
    within(&format!("reading {} hex digits", t.len()), l * 2.0, || {
        black_box((hex::from_hex(&t, &mut out).is_some(), hex::is_hex(&t)));
    })?;
    Ok(())
}
pub const C08: Prop = Prop {
    id: "C08",
    rule: "64 KiB to 2 MiB of bytes of three styles hashed, written as hex and read back, some wrong in the last digit, each under a limit of CPU time. All cases are non-trivial.",
    assumptions: &["0.15 s + 1.5 microseconds per byte, over ten times what is needed here; the least of four runs counts"],
    quick: 200,
    thorough: 10_000,
    case: c08,
    phases: &[],
    terminates: true,
    extra: None,
};
