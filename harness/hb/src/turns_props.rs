//! C07: calls depend on their arguments alone.
use crate::bencode_props::*;
use crate::common_props::*;
use engine::model::{self, Val};
use engine::turns::{self, Steps};
use bencode::{Value, ValueRef};
use engine::{ensure, show, Ctx, Phase, Prop, R};

const CALLS: [&str; 19] = ["hash", "decode", "decode both ways with limits", "decode within limits", "encode and decode", "hex", "Bloom filter", "shift", "combine", "look up", "hash an address", "decode owned", "decode borrowed", "decode owned within limits", "decode borrowed within limits", "encode owned", "encode borrowed", "write hex", "read hex"];

pub fn id(b: &[u8], from: usize) -> [u8; 20] {
    let mut a = [0; 20];
    for (x, y) in a.iter_mut().zip(b.iter().skip(from)) {
        *x = *y;
    }
    a
}
/// Limits that follow from the argument.
pub fn limits(b: &[u8]) -> (Option<usize>, Option<usize>) {
    let x = b.iter().fold(b.len(), |n, &c| n * 31 % 1009 + c as usize);
    (if x % 3 == 0 { Some(x % 5) } else { None }, if x % 2 == 0 { Some(x % 11) } else { None })
}
/// Compares a decoder's result with the reference's.
fn agrees(b: &[u8], limits: Option<(Option<usize>, Option<usize>)>, got: Option<Val>) -> R {
    let mut want = model::decode_tokens(b);
    if let Some((dl, il)) = limits {
        want = want.filter(|(_, t)| t.iter().enumerate().all(|(k, t)| dl.map_or(true, |d| t.open <= d) && il.map_or(true, |n| k <= n)));
    }
    let want = want.map(|w| w.0);
    ensure!(got == want, "{} ({:?}) decodes to {} instead of {}", show(b), limits, got.as_ref().map_or("nothing".into(), brief), want.as_ref().map_or("nothing".into(), brief));
    Ok(())
}
fn call(k: usize, b: &[u8]) -> R {
    let (dl, il) = limits(b);
    match k {
        0 => c01_one(b),
        1 => b02_one(b).map(|_| ()),
        2 => b03_one(b, dl, il).map(|_| ()),
        3 => b04_one(b, dl, il).map(|_| ()),
        4 => {
            b01_document(b)?;
            match model::decode(b) {
                Some(v) => b01_value(&v),
                None => Ok(()),
            }
        }
        5 => {
            c04_bytes(b)?;
            c04_decode(b)
        }
        6 => {
            let keys: Vec<[u8; 20]> = b.chunks(20).take(40).map(|k| id(k, 0)).collect();
            let mut start = vec![];
            if b.len() % 3 == 0 {
                start = b.to_vec();
                start.resize(256, 0);
            }
            c05_256(&start, &keys, &[id(b, 1)], usize::MAX)?;
            start.truncate(128);
            c05_128(&start, &keys, &[id(b, 1)], usize::MAX)
        }
        7 => {
            let n = b.last().map_or(0, |&n| n as usize % 165);
            c02_one(id(b, 0), true, n, 0x5a)?;
            c02_one(id(b, 0), false, n, 0xa5)
        }
        8 => {
            c03_pair(id(b, 0), id(b, 3))?;
            c03_bytes(b)
        }
        9 => {
            let v = model::decode(b).unwrap_or_else(|| Val::Bytes(b.to_vec()));
            let mut keys = vec![String::new()];
            if let Val::Dict(d) = &v {
                keys.extend(d.keys().take(8).cloned());
                keys.extend(d.keys().take(8).map(|k| format!("{}a", k)));
            }
            access_value(&v, &to_value(&v), &keys, &[0, 1, 2, b.len()])
        }
        // below, one call of one function each
        10 => match b.len() {
            0..=3 => Ok(()),
            4..=15 => c01_ip([b[0], b[1], b[2], b[3]].into()),
            n => {
                let mut a = [0; 16];
                a.copy_from_slice(&b[n - 16..]);
                c01_ip(a.into())
            }
        },
        11 => agrees(b, None, Value::decode(b).ok().map(|v| of_value(&v))),
        12 => agrees(b, None, ValueRef::decode(b).ok().map(|v| of_ref(&v))),
        13 => agrees(b, Some((dl, il)), Value::decode_with_limits(b, dl, il).ok().map(|v| of_value(&v))),
        14 => agrees(b, Some((dl, il)), ValueRef::decode_with_limits(b, dl, il).ok().map(|v| of_ref(&v))),
        15 | 16 => {
            let v = model::decode(b).unwrap_or_else(|| Val::Bytes(b.to_vec()));
            let t = if k == 15 { to_value(&v).to_vec() } else { to_ref(&v).to_vec() };
            ensure!(t == v.to_vec(), "{} encodes as {}", brief(&v), show(&t));
            Ok(())
        }
        17 => {
            let t = common::hex::to_hex(b);
            ensure!(t == model::hex(b), "{} becomes the hex text {:?}", show(b), t);
            Ok(())
        }
        _ => {
            let mut out = vec![0; b.len() / 2 + 1];
            let ok = common::hex::from_hex(b, &mut out).is_some();
            let want = model::unhex(b);
            ensure!(ok == want.is_some() && want.map_or(true, |w| out.starts_with(&w)), "hex text {} decodes to {} ({})", show(b), show(&out), ok);
            Ok(())
        }
    }
}
fn run(c: &mut Ctx, all: Vec<Vec<u8>>, st: Steps) -> R {
    c.key(&(&all, &st.steps, st.place, st.threads));
    c.nontrivial(st.steps.iter().any(|x| x.1 != st.steps[0].1));
    for (k, _) in &st.steps {
        c.label(CALLS[*k]);
    }
    c.show(|| {
        let calls: Vec<String> = st.steps.iter().map(|(k, a)| format!("{} #{}", CALLS[*k], a)).collect();
        let args: Vec<String> = all.iter().enumerate().map(|(i, a)| format!("#{} = {}", i, show(a))).collect();
        format!("{}{}, {} thread(s); {}", calls.join(", "), if st.place { ", in the same place" } else { "" }, st.threads, args.join(", "))
    });
    st.run(c, &all, |k, _, b| call(k, b))
}
fn c07(c: &mut Ctx) -> R {
    let base = match c.s.weighted(&[3, 3, 2]) {
        0 => c.s.blob(3000),
        1 => {
            let depth = 1 + c.s.usize(3);
            model::container(&mut c.s, depth).to_vec()
        }
        _ => model::document(&mut c.s).0,
    };
    let mut all = turns::family(&mut c.s, base, 5);
    if c.s.chance(1, 4) {
        // one that has nothing to do with the others
        all.push(model::document(&mut c.s).0);
    }
    let st = turns::steps(&mut c.s, CALLS.len(), all.len());
    run(c, all, st)
}
/// Every kind of call right after every other, on arguments that differ in one place.
fn pairs(c: &mut Ctx, i: u64) -> R {
    let n = CALLS.len() as u64;
    let (x, y, z) = ((i % n) as usize, (i / n % n) as usize, i / n / n);
    let base = match z % 4 {
        0 => (0..64 + z as usize * 7).map(|k| (k * 7 + 1) as u8).collect(),
        1 => b"d1:ai1e1:bl4:spam4:eggse1:cd1:xi-3eee".to_vec(),
        2 => Val::List((0..z as i64 * 20).map(|n| if n % 3 == 0 { Val::Int(n) } else { Val::Bytes(vec![b'x'; n as usize % 50]) }).collect()).to_vec(),
        _ => model::hex(&(0..z as usize * 10).map(|k| (k * 3) as u8).collect::<Vec<_>>()).into_bytes(),
    };
    let all = turns::family(&mut c.s, base, 3);
    let mut steps = vec![];
    for a in 0..all.len() {
        steps.extend([(x, 0), (y, a), (x, a), (y, 0)]);
    }
    let st = Steps { steps, place: z / 4 % 2 == 1, threads: if z % 16 == 15 { 4 } else { 1 } };
    run(c, all, st)
}
pub const C07: Prop = Prop {
    id: "C07",
    rule: "histories of three to ten calls (hashing, decoding with and without limits, encoding, lookups, hex, Bloom filters, shifts, combinations) on a family of related arguments: one byte or bit changed, two swapped, same sum, same exclusive or, same start and end, cut, extended, rotated; repeats; half with every argument in the same place in memory, some on two to four threads at once; each call judged from its arguments alone. Every kind of call right after every other enumerated. Non-trivial: at least two different arguments.",
    assumptions: &["the references of B01 to B05 and C01 to C05"],
    quick: 150_000,
    thorough: 6_000_000,
    case: c07,
    phases: &[Phase { name: "every kind of call after every other", count: |t| (CALLS.len() * CALLS.len() * if t { 400 } else { 32 }) as u64, run: pairs }],
    terminates: true,
    extra: None,
};
