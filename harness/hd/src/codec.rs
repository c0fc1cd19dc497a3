use crate::conv::*;
use bencode::ValueRef;
use common::sha1::Sha1Hash;
use dht::{detail, msg, node, settings::DhtSettings, state::DhtState};
use engine::model::{self, Val};
use engine::{turns, alloc, ensure, ensure_eq, show, Ctx, Phase, Prop, Src, R};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::net::{IpAddr, SocketAddr, SocketAddrV6};

// ---- B06: writers that misbehave ------------------------------------------------------------------------------------

/// Accepts at most `portion` bytes per call, is interrupted on some calls, and after `limit` bytes fails or accepts nothing.
struct Poor {
    got: Vec<u8>,
    portions: Vec<usize>,
    interrupt: u64,
    limit: usize,
    stops: bool,
    calls: usize,
    failed: bool,
    /// fails once, then works again
    transient: bool,
}
impl Write for Poor {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt >> (n % 64) & 1 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let room = self.limit - self.got.len().min(self.limit);
        if room == 0 && !(self.transient && self.failed) {
            self.failed = true;
            return if self.stops { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "injected")) };
        }
        let p = self.portions.get(n % self.portions.len().max(1)).copied().unwrap_or(usize::MAX).max(1);
        let k = b.len().min(p);
        let k = if self.transient && self.failed { k } else { k.min(room) };
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Clone)]
struct Fault {
    portions: Vec<usize>,
    interrupt: u64,
    limit: usize,
    stops: bool,
    transient: bool,
}
fn b06_write(what: &str, want: &[u8], f: &Fault, run: impl FnOnce(&mut Poor) -> bool) -> R {
    let mut w = Poor { got: vec![], portions: f.portions.clone(), interrupt: f.interrupt, limit: f.limit, stops: f.stops, calls: 0, failed: false, transient: f.transient };
    let ok = run(&mut w);
    if f.limit >= want.len() {
        // nothing forces a failure
        ensure!(!w.failed, "{}: more than the {} bytes of {} are written", what, want.len(), show(want));
        ensure!(ok, "{}: writing {} in portions {:?} with interruptions {:x} fails", what, show(want), f.portions, f.interrupt);
        ensure!(w.got == want, "{}: {} is delivered instead of {}", what, show(&w.got), show(want));
    } else {
        ensure!(!ok, "{}: the writer {} after {} of {} bytes but success is reported", what, if f.stops { "stops accepting" } else { "fails" }, f.limit, want.len());
        ensure!(want.starts_with(&w.got), "{}: {} is delivered, no prefix of {}", what, show(&w.got), show(want));
    }
    Ok(())
}
fn b06_value(v: &Val, f: &Fault) -> R {
    let want = v.to_vec();
    let (a, b) = (to_value(v), to_ref(v));
    b06_write("owned encoder", &want, f, |mut w| a.encode(&mut w).is_ok())?;
    b06_write("borrowed encoder", &want, f, |mut w| b.encode(&mut w).is_ok())
}
fn b06_addr(ip: IpAddr, port: u16, f: &Fault) -> R {
    let oct = model::ip_octets(&ip);
    b06_write("address writer", &oct, f, |mut w| detail::write_address(&mut w, &ip).is_ok())?;
    let mut want = oct;
    want.extend_from_slice(&[(port >> 8) as u8, port as u8]);
    b06_write("endpoint writer", &want, f, |mut w| detail::write_socket_addr(&mut w, &SocketAddr::new(ip, port)).is_ok())
}
fn fault(s: &mut Src, len: usize) -> Fault {
    let portions = match s.usize(3) {
        0 => vec![1],
        1 => vec![],
        _ => s.list(8, 4, |s| s.range(1, 40)),
    };
    let interrupt = match s.usize(3) {
        0 => 0,
        1 => s.u64() & s.u64() & (u64::MAX >> 1),
        _ => 0x5555_5555_5555_5555,
    };
    let limit = if s.chance(1, 3) { usize::MAX } else { s.usize(len + 2) };
    Fault { portions, interrupt, limit, stops: s.bool(), transient: s.chance(1, 4) }
}
fn b06(c: &mut Ctx) -> R {
    if c.s.chance(1, 4) {
        let (ip, port) = (c.s.ip(), c.s.port());
        let f = fault(&mut c.s, 18);
        c.label("compact address");
        c.key(&(ip, port, &f.portions, f.interrupt, f.limit, f.stops));
        c.nontrivial(true);
        c.show(|| format!("{} port {}, portions {:?}, interruptions {:x}, limit {}, stops {}", ip, port, f.portions, f.interrupt, f.limit as isize, f.stops));
        return b06_addr(ip, port, &f);
    }
    let v = if c.s.chance(1, 10) { model::val(&mut c.s, 1) } else { model::container(&mut c.s, 3) };
    let n = v.to_vec().len();
    let f = fault(&mut c.s, n);
    c.key(&(v.to_vec(), &f.portions, f.interrupt, f.limit, f.stops));
    c.label(if f.limit >= n { "writer works" } else if f.stops { "writer stops" } else { "writer fails" });
    c.label_if(f.interrupt != 0, "interruptions");
    c.label_if(!f.portions.is_empty(), "small portions");
    c.nontrivial(n > 2);
    c.show(|| format!("{} portions {:?}, interruptions {:x}, limit {}, stops {}, once {}", brief(&v), f.portions, f.interrupt, f.limit as isize, f.stops, f.transient));
    b06_value(&v, &f)?;
    if n < 80 {
        // every point of failure
        for limit in 0..n {
            b06_value(&v, &Fault { limit, ..f.clone() })?;
        }
    }
    Ok(())
}
pub const B06: Prop = Prop {
    id: "B06",
    rule: "random values and addresses written through a writer accepting random small portions, interrupted on random calls, and failing (for good or once) or stopping at a random byte; for encodings below 80 bytes at every byte; large values (sizes around powers of two up to 262145, some to 2^20) likewise. Non-trivial: more than 2 bytes.",
    assumptions: &[],
    quick: 320_000,
    thorough: 3_000_000,
    case: b06,
    phases: &[Phase {
        name: "every failure point of both address forms",
        count: |_| 20 * 2 * 2 * 4,
        run: |c, i| {
            let ip: IpAddr = if i % 2 == 0 { [1, 2, 3, 4].into() } else { [0x2001u16, 2, 3, 4, 5, 6, 7, 0x1234].into() };
            let k = i / 4 % 4;
            let f = Fault { portions: if k & 1 == 1 { vec![1] } else { vec![] }, interrupt: if k & 2 == 2 { 0x5555_5555_5555_5555 } else { 0 }, limit: (i / 16) as usize, stops: i / 2 % 2 == 1, transient: false };
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("{} limit {} stops {}", ip, f.limit, f.stops));
            b06_addr(ip, 0x1a2b, &f)
        },
    }, Phase {
        name: "large values",
        count: |t| model::large_count() * if t { 20 } else { 1 },
        run: |c, i| {
            let (l, v) = model::large(i % model::large_count());
            let n = v.to_vec().len();
            let f = fault(&mut c.s, n);
            c.key(&(i, &f.portions, f.interrupt, f.limit, f.stops));
            c.label(l);
            c.nontrivial(true);
            c.show(|| format!("{} of {} bytes, portions {:?}, interruptions {:x}, limit {}, stops {}, once {}", l, n, f.portions, f.interrupt, f.limit as isize, f.stops, f.transient));
            b06_value(&v, &f)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D01, D02: node state -------------------------------------------------------------------------------------------

fn entry_bytes(id: &[u8; 20], ip: &IpAddr) -> Vec<u8> {
    [&id[..], &model::ip_octets(ip)].concat()
}
fn contact_bytes(a: &SocketAddr) -> Vec<u8> {
    [&model::ip_octets(&a.ip())[..], &[(a.port() >> 8) as u8, a.port() as u8]].concat()
}
fn ids_of(s: &DhtState) -> Vec<(IpAddr, [u8; 20])> {
    s.nids.iter().map(|(a, id)| (*a, <[u8; 20]>::try_from(&id[..]).expect("20 bytes"))).collect()
}
/// Entry `k` of a long list, told apart from its neighbours.
fn counted(k: usize) -> (IpAddr, [u8; 20]) {
    let h = model::sha1(&(k as u64).to_le_bytes());
    (if k % 3 == 0 { (k as u128 + 1).to_be_bytes().into() } else { (k as u32 + 1).to_be_bytes().into() }, h)
}
/// A state that bytes spell: identifiers with addresses, contacts of both families.
fn d01_bytes(b: &[u8]) -> R {
    let (x, y) = (b.len() / 3, b.len() / 3 * 2);
    let ids: Vec<(IpAddr, [u8; 20])> = b[..x].chunks_exact(24).map(|k| (ip_of(&k[20..]).unwrap(), k[..20].try_into().unwrap())).collect();
    let sa = |k: &[u8]| SocketAddr::new(ip_of(&k[2..]).unwrap(), u16::from_be_bytes([k[0], k[1]]));
    let v4: Vec<SocketAddr> = b[x..y].chunks_exact(6).map(sa).collect();
    let v6: Vec<SocketAddr> = b[y..].chunks_exact(18).map(sa).collect();
    d01_judge(&ids, &v4, &v6)
}
fn d01(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let n = c.s.usize(400);
        let b = c.s.bytes(n);
        return turns::twins(c, b, d01_bytes);
    }
    let avg = c.s.usize(12);
    let ids: Vec<(IpAddr, [u8; 20])> = c.s.list(200, avg, |s| (s.ip(), s.id()));
    let avg = c.s.usize(12);
    let v4: Vec<SocketAddr> = c.s.list(300, avg, |s| SocketAddr::new(s.v4().into(), s.port()));
    let avg = c.s.usize(12);
    let scoped = c.s.chance(1, 8);
    c.label_if(scoped, "flow and scope");
    let v6: Vec<SocketAddr> = c.s.list(300, avg, |s| {
        let (ip, port) = (s.v6(), s.port());
        if scoped && s.bool() {
            SocketAddr::V6(SocketAddrV6::new(ip, port, s.usize(4) as u32, s.u64() as u32 >> 24))
        } else {
            SocketAddr::new(ip.into(), port)
        }
    });
    let (mut ids, mut v4, mut v6) = (ids, v4, v6);
    if c.s.chance(1, 8) {
        // entries again, next to each other or apart, within a list or in the other
        c.label("repeated entries");
        fn again<T: Clone>(s: &mut Src, l: &mut Vec<T>) {
            for _ in 0..1 + s.usize(3) {
                if !l.is_empty() {
                    let (from, to) = (s.usize(l.len()), s.usize(l.len() + 1));
                    l.insert(to, l[from].clone());
                }
            }
        }
        again(&mut c.s, &mut ids);
        again(&mut c.s, &mut v4);
        again(&mut c.s, &mut v6);
    }
    if c.s.chance(1, 16) {
        // contacts of both families in one list, or the same list twice
        c.label("mixed families");
        match c.s.usize(3) {
            0 => v6 = v4.clone(),
            1 => v4 = v6.clone(),
            _ => std::mem::swap(&mut v4, &mut v6),
        }
    }
    d01_one(c, ids, v4, v6)
}
fn d01_one(c: &mut Ctx, ids: Vec<(IpAddr, [u8; 20])>, v4: Vec<SocketAddr>, v6: Vec<SocketAddr>) -> R {
    c.key(&(&ids, &v4, &v6));
    c.nontrivial(!ids.is_empty() || !v4.is_empty() || !v6.is_empty());
    c.label_if(ids.is_empty() || v4.is_empty() || v6.is_empty(), "a list is empty");
    c.label_if(ids.len() + v4.len() + v6.len() > 20, "over 20 entries");
    c.show(|| format!("ids {:?} nodes {:?} nodes6 {:?}", ids.iter().map(|(a, i)| format!("{} {}", a, model::hex(i))).collect::<Vec<_>>(), v4, v6));
    d01_judge(&ids, &v4, &v6)
}
/// Without what the compact form cannot carry.
fn bare(l: &[SocketAddr]) -> Vec<SocketAddr> {
    l.iter().map(|a| SocketAddr::new(a.ip(), a.port())).collect()
}
fn d01_judge(ids: &[(IpAddr, [u8; 20])], v4: &[SocketAddr], v6: &[SocketAddr]) -> R {
    let st = DhtState { nids: ids.iter().map(|(a, id)| (*a, Sha1Hash::from(*id))).collect(), nodes: v4.to_vec(), nodes6: v6.to_vec() };
    let saved = st.save();
    let mut want = BTreeMap::new();
    if !ids.is_empty() {
        want.insert("node-id".to_string(), Val::List(ids.iter().map(|(a, id)| Val::Bytes(entry_bytes(id, a))).collect()));
    }
    if !v4.is_empty() {
        want.insert("nodes".to_string(), Val::List(v4.iter().map(|a| Val::Bytes(contact_bytes(a))).collect()));
    }
    if !v6.is_empty() {
        want.insert("nodes6".to_string(), Val::List(v6.iter().map(|a| Val::Bytes(contact_bytes(a))).collect()));
    }
    let want = Val::Dict(want);
    ensure!(of_value(&saved) == want, "the saved form is {} instead of {}", brief(&of_value(&saved)), brief(&want));
    ensure!(ids_of(&st) == ids && st.nodes == v4 && st.nodes6 == v6, "saving changes the state");
    let bytes = saved.to_vec();
    let back = ValueRef::decode(&bytes).map_err(|e| format!("the saved form does not decode: {}", e))?;
    for (how, r) in [("after encoding", DhtState::read(&back)), ("directly", DhtState::read(&saved.as_ref()))] {
        let r = r.map_err(|e| format!("reading {} fails: {}", how, e))?;
        ensure_eq!(ids_of(&r), ids, "identifiers read back {}", how);
        ensure_eq!(r.nodes, bare(v4), "IPv4 contacts read back {}", how);
        ensure_eq!(r.nodes6, bare(v6), "IPv6 contacts read back {}", how);
    }
    let mut st = st;
    st.clear();
    ensure!(st.nids.is_empty() && st.nodes.is_empty() && st.nodes6.is_empty(), "a cleared state is not empty");
    Ok(())
}
pub const D01: Prop = Prop {
    id: "D01",
    rule: "random states with up to hundreds of identifiers and contacts of each family (each list empty in some cases), saved, encoded, decoded and read; lists of up to 262145, some to 2^20 entries. Non-trivial: at least one entry.",
    assumptions: &["the compact form cannot carry the flow and scope of an IPv6 contact"],
    quick: 400_000,
    thorough: 4_000_000,
    case: d01,
    phases: &[Phase {
        name: "long lists",
        count: |t| model::sized_count(4, if t { 30 } else { 1 }),
        run: |c, i| {
            let (n, which) = model::sized(i, 4, if c.thorough { 30 } else { 1 }, (1 << 20) + 3);
            let m = |k: usize| if which == k || which == 3 { n } else { 2 };
            let some = c.s.usize(5);
            let ids = (0..m(0)).map(|k| if k < some { (c.s.ip(), c.s.id()) } else { counted(k) }).collect();
            let v4 = (0..m(1)).map(|k| SocketAddr::new(((k as u32) << 7 | 5).to_be_bytes().into(), (k * 3) as u16)).collect();
            let v6 = (0..m(2)).map(|k| SocketAddr::new(((k as u128) << 61 | 9).to_be_bytes().into(), (k * 5) as u16)).collect();
            d01_one(c, ids, v4, v6)
        },
    }],
    terminates: true,
    extra: None,
};

fn near_entry(s: &mut Src, good: &[usize]) -> Val {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => {
            let n = *s.pick(good);
            Val::Bytes(s.bytes(n))
        }
        1 => {
            let n = (*s.pick(&[4usize, 6, 16, 18, 20, 24, 26, 36, 38, 0, 40]) + s.usize(3)).saturating_sub(1);
            Val::Bytes(s.bytes(n))
        }
        2 => {
            // a well-formed entry one level too deep
            let n = *s.pick(good);
            Val::List(vec![Val::Bytes(s.bytes(n))])
        }
        _ => model::val(s, 1),
    }
}
fn entries(s: &mut Src, good: &[usize]) -> Val {
    match s.weighted(&[8, 1, 1, 1]) {
        0 => {
            let (most, avg) = if s.chance(1, 40) { (600, 200) } else { (60, s.usize(8)) };
            Val::List(s.list(most, avg, |s| near_entry(s, good)))
        }
        1 => {
            let n = *s.pick(&[20usize, 24, 36, 6, 18, 19, 21, 40, 0]);
            if n == 20 {
                return Val::Bytes(s.id().to_vec());
            }
            Val::Bytes(s.bytes(n))
        }
        2 => Val::Dict([("a".to_string(), near_entry(s, good))].into_iter().collect()),
        _ => model::val(s, 2),
    }
}
fn ip_of(b: &[u8]) -> Option<IpAddr> {
    match b.len() {
        4 => Some(IpAddr::from(<[u8; 4]>::try_from(b).unwrap())),
        16 => Some(IpAddr::from(<[u8; 16]>::try_from(b).unwrap())),
        _ => None,
    }
}
fn expect_ids(v: Option<&Val>) -> Vec<(IpAddr, [u8; 20])> {
    match v {
        Some(Val::Bytes(b)) if b.len() == 20 => vec![([127, 0, 0, 1].into(), b[..].try_into().unwrap())],
        Some(Val::List(l)) => l
            .iter()
            .filter_map(|e| match e {
                Val::Bytes(b) if b.len() == 24 || b.len() == 36 => Some((ip_of(&b[20..]).unwrap(), b[..20].try_into().unwrap())),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
fn expect_contacts(v: Option<&Val>) -> Vec<SocketAddr> {
    match v {
        Some(Val::List(l)) => l
            .iter()
            .filter_map(|e| match e {
                Val::Bytes(b) if b.len() == 6 || b.len() == 18 => {
                    let n = b.len() - 2;
                    Some(SocketAddr::new(ip_of(&b[..n]).unwrap(), b[n] as u16 * 256 + b[n + 1] as u16))
                }
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
fn d02(c: &mut Ctx) -> R {
    let twins = c.s.chance(1, 12);
    let mut doc = if c.s.chance(1, 20) {
        model::val(&mut c.s, 2)
    } else {
        let mut d = BTreeMap::new();
        for (k, good) in [("node-id", &[24usize, 36][..]), ("nodes", &[6, 18]), ("nodes6", &[18, 6])] {
            if c.s.chance(5, 6) {
                d.insert(k.to_string(), entries(&mut c.s, good));
            }
        }
        let extra = c.s.list(4, 1, |s| (s.pick(&["node-ids", "Nodes", "nodes ", "", "nodes66", "node-i", "id", "zz"]).to_string(), entries(s, &[6, 18, 24, 36, 20])));
        d.extend(extra);
        Val::Dict(d)
    };
    if c.s.chance(1, 10) {
        model::misplace(&mut c.s, &mut doc);
        c.label("something in another form");
    }
    if twins {
        return turns::twins(c, doc.to_vec(), |b| model::decode(b).map_or(Ok(()), |doc| d02_judge(&doc)));
    }
    d02_one(c, doc)
}
fn d02_one(c: &mut Ctx, doc: Val) -> R {
    c.key(&doc.to_vec());
    c.show(|| brief(&doc));
    let get = |k: &str| if let Val::Dict(d) = &doc { d.get(k) } else { None };
    let (ids, v4, v6) = (expect_ids(get("node-id")), expect_contacts(get("nodes")), expect_contacts(get("nodes6")));
    c.nontrivial(!ids.is_empty() || !v4.is_empty() || !v6.is_empty());
    c.label_if(matches!(get("node-id"), Some(Val::Bytes(b)) if b.len() == 20), "legacy identifier");
    c.label_if(matches!(get("nodes"), Some(Val::List(l)) if l.len() > v4.len()), "malformed contacts");
    c.label_if(matches!(get("node-id"), Some(Val::List(l)) if l.len() > ids.len()), "malformed identifiers");
    d02_judge(&doc)
}
fn d02_judge(doc: &Val) -> R {
    let get = |k: &str| if let Val::Dict(d) = doc { d.get(k) } else { None };
    let (ids, v4, v6) = (expect_ids(get("node-id")), expect_contacts(get("nodes")), expect_contacts(get("nodes6")));
    let r = to_ref(doc);
    let st = DhtState::read(&r).map_err(|e| format!("reading {} fails: {}", brief(doc), e))?;
    ensure_eq!(ids_of(&st), ids, "identifiers read from {}", brief(doc));
    ensure_eq!(st.nodes, v4, "contacts read from {}", brief(doc));
    ensure_eq!(st.nodes6, v6, "IPv6 contacts read from {}", brief(doc));
    if let Val::Dict(d) = doc {
        for k in d.keys().chain(std::iter::once(&"absent".to_string())) {
            let got = dht::state::extract_node_ids(&r, k).map_err(|e| format!("extracting {:?} from {} fails: {}", k, brief(doc), e))?;
            let got: Vec<(IpAddr, [u8; 20])> = got.iter().map(|(a, id)| (*a, <[u8; 20]>::try_from(&id[..]).unwrap())).collect();
            ensure_eq!(got, expect_ids(get(k)), "identifiers under {:?} of {}", k, brief(doc));
        }
    }
    Ok(())
}
pub const D02: Prop = Prop {
    id: "D02",
    rule: "random documents with identifier and contact lists mixing well-formed entries, entries of neighbouring lengths, nested and foreign entries, legacy identifiers, unknown keys, and arbitrary documents; every entry length up to 60 in every place enumerated; lists, entries and documents of up to 262145, some to 2^20. Non-trivial: at least one well-formed entry.",
    assumptions: &[],
    quick: 1_000_000,
    thorough: 10_000_000,
    case: d02,
    phases: &[Phase {
        name: "every entry length in every place",
        count: |_| 61 * 61 * 4,
        run: |c, i| {
            let (n, m, place) = ((i % 61) as usize, (i / 61 % 61) as usize, i / 3721);
            let e = |n: usize| Val::Bytes((0..n).map(|k| k as u8 + 1).collect());
            let mut d = BTreeMap::new();
            match place {
                3 => {
                    d.insert("node-id".to_string(), e(n));
                    d.insert("nodes".to_string(), Val::List(vec![e(m)]));
                }
                p => {
                    d.insert(["node-id", "nodes", "nodes6"][p as usize].to_string(), Val::List(vec![e(n), e(m), e(n)]));
                }
            }
            let doc = Val::Dict(d);
            let get = |k: &str| if let Val::Dict(d) = &doc { d.get(k) } else { None };
            c.key(&i);
            c.nontrivial(true);
            c.show(|| brief(&doc));
            let st = DhtState::read(&to_ref(&doc)).map_err(|e| format!("reading {} fails: {}", brief(&doc), e))?;
            ensure_eq!(ids_of(&st), expect_ids(get("node-id")), "identifiers read from {}", brief(&doc));
            ensure_eq!(st.nodes, expect_contacts(get("nodes")), "contacts read from {}", brief(&doc));
            ensure_eq!(st.nodes6, expect_contacts(get("nodes6")), "IPv6 contacts read from {}", brief(&doc));
            Ok(())
        },
    }, Phase {
        name: "long lists and long entries",
        count: |t| model::sized_count(5, if t { 30 } else { 1 }),
        run: |c, i| {
            let (n, kind) = model::sized(i, 5, if c.thorough { 30 } else { 1 }, (1 << 20) + 3);
            let mut d = BTreeMap::new();
            for (j, (k, good)) in [("node-id", [24usize, 36]), ("nodes", [6, 18]), ("nodes6", [18, 6])].into_iter().enumerate() {
                // malformed entries at random places, and once far from any other
                let every = c.s.range(2, 50);
                let at = c.s.usize(n);
                let list = |c: &mut Ctx, n: usize| {
                    Val::List((0..n).map(|x| {
                        let h = model::sha1(&(x as u64).to_le_bytes());
                        let bad = x == at || kind == 1 && x % every == 0;
                        if bad && h[0] % 2 == 0 {
                            // of another kind
                            return match h[1] % 3 {
                                0 => Val::Int(x as i64),
                                1 => Val::List(vec![Val::Bytes(vec![1; good[0]])]),
                                _ => Val::Dict([("a".to_string(), Val::Bytes(vec![2; good[0]]))].into_iter().collect()),
                            };
                        }
                        let len = if bad { *c.s.pick(&[0usize, 4, 5, 7, 16, 20, 23, 25, 37, 40]) } else { good[x / every % 2] };
                        Val::Bytes(h.iter().cycle().take(len).copied().collect())
                    }).collect())
                };
                let v = match kind {
                    0 | 1 => list(c, if j == i as usize % 3 { n } else { 2 }),
                    // one entry, or the place itself, of that length
                    2 => Val::List(vec![Val::Bytes(vec![7; good[0]]), Val::Bytes(vec![7; n]), Val::Bytes(vec![7; good[1]])]),
                    3 => Val::Bytes(vec![7; n * good[0]]),
                    // few good entries among n other keys
                    _ => {
                        if j == 0 {
                            for x in 0..n {
                                d.insert(format!("k{:x}", x), Val::Bytes(vec![1; 20]));
                            }
                        }
                        list(c, 3)
                    }
                };
                d.insert(k.to_string(), v);
            }
            c.label(["one malformed among many", "many malformed among many", "one long entry", "a long string", "many other keys"][kind]);
            let doc = Val::Dict(d);
            if kind < 4 {
                return d02_one(c, doc);
            }
            let get = |k: &str| if let Val::Dict(d) = &doc { d.get(k) } else { None };
            c.key(&i);
            c.nontrivial(true);
            c.show(|| brief(&doc));
            let st = DhtState::read(&to_ref(&doc)).map_err(|e| format!("reading {} fails: {}", brief(&doc), e))?;
            ensure_eq!(ids_of(&st), expect_ids(get("node-id")), "identifiers read from {}", brief(&doc));
            ensure_eq!(st.nodes, expect_contacts(get("nodes")), "contacts read from {}", brief(&doc));
            ensure_eq!(st.nodes6, expect_contacts(get("nodes6")), "IPv6 contacts read from {}", brief(&doc));
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D16: memory of reading and saving --------------------------------------------------------------------------------

const PER_BYTE: usize = 48;
const BASE: usize = 16 << 10;

/// Reads the document as state and as settings and saves what was read.
fn d16_one(doc: &Val) -> R {
    let bytes = doc.to_vec();
    let bound = BASE + PER_BYTE * bytes.len();
    let r = ValueRef::decode(&bytes).map_err(|e| format!("{} does not decode: {}", brief(doc), e))?;
    let within = |what: &str, peak: usize| -> R {
        ensure!(peak <= bound, "{} {}, {} bytes, allocates {} bytes at its peak", what, brief(doc), bytes.len(), peak);
        Ok(())
    };
    let (st, peak) = alloc::peak(|| DhtState::read(&r));
    within("reading the state from", peak)?;
    if let Ok(st) = st {
        let (v, peak) = alloc::peak(|| st.save());
        within("saving the state read from", peak)?;
        let (_, peak) = alloc::peak(|| v.to_vec());
        within("encoding the state read from", peak)?;
    }
    let (_, peak) = alloc::peak(|| dht::state::extract_node_ids(&r, "node-id").map(|v| v.len()));
    within("extracting the identifiers from", peak)?;
    let (set, peak) = alloc::peak(|| DhtSettings::read(&r));
    within("reading the settings from", peak)?;
    let (_, peak) = alloc::peak(|| set.save());
    within("saving the settings read from", peak)
}
fn d16(c: &mut Ctx) -> R {
    let mut d = BTreeMap::new();
    for (k, good) in [("node-id", &[24usize, 36][..]), ("nodes", &[6, 18]), ("nodes6", &[18, 6])] {
        if c.s.chance(5, 6) {
            let v = match c.s.weighted(&[4, 3, 2]) {
                0 => entries(&mut c.s, good),
                1 => {
                    // many alike
                    let n = c.s.size(3000);
                    let e = near_entry(&mut c.s, good);
                    Val::List(vec![e; n])
                }
                _ => {
                    let n = c.s.size(60_000);
                    let b = Val::Bytes(vec![b'9'; n]);
                    if c.s.bool() { b } else { Val::List(vec![b]) }
                }
            };
            d.insert(k.to_string(), v);
        }
    }
    let claims = c.s.usize(4);
    for _ in 0..claims {
        let k = c.s.pick(INTS).to_string();
        let v = *c.s.pick(&[i64::MAX, i64::MAX - 1, 1 << 40, 1 << 31, 1 << 24, 65536, i64::MIN, -1]);
        d.insert(k, Val::Int(v));
    }
    let doc = Val::Dict(d);
    c.key(&doc.to_vec());
    c.show(|| brief(&doc));
    c.nontrivial(doc.to_vec().len() > 60);
    c.label_if(claims > 0, "settings with huge numbers");
    c.label(if doc.to_vec().len() > 10_000 { "over 10000 bytes" } else { "small" });
    d16_one(&doc)
}
pub const D16: Prop = Prop {
    id: "D16",
    rule: "documents read as node state and as settings under a counting allocator: lists of well-formed, malformed and repeated entries, long strings, huge numbers for settings; every kind of entry alone repeated up to 262145 times in every place. What was read is saved and encoded under the same meter. Non-trivial: over 60 bytes long.",
    assumptions: &["the bound is 16 KiB + 48 bytes per byte of the document, over four times what the densest document needs at the pinned commit"],
    quick: 120_000,
    thorough: 2_000_000,
    case: d16,
    phases: &[Phase {
        name: "one kind of entry repeated",
        count: |_| (3 * 9 * model::sizes().len()) as u64,
        run: |c, i| {
            let n = model::sizes()[i as usize % model::sizes().len()];
            let i = i as usize / model::sizes().len();
            let e = match i % 9 {
                0 => Val::Bytes(vec![1; 6]),
                1 => Val::Bytes(vec![1; 18]),
                2 => Val::Bytes(vec![1; 24]),
                3 => Val::Bytes(vec![1; 36]),
                4 => Val::Bytes(vec![]),
                5 => Val::Int(0),
                6 => Val::List(vec![]),
                7 => Val::Dict(BTreeMap::new()),
                _ => Val::Bytes(vec![1; 20]),
            };
            let place = ["node-id", "nodes", "nodes6"][i / 9];
            let doc = Val::Dict([(place.to_string(), Val::List(vec![e; n]))].into_iter().collect());
            c.key(&(i, n));
            c.nontrivial(true);
            c.show(|| brief(&doc));
            d16_one(&doc)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D03, D04: settings ---------------------------------------------------------------------------------------------

macro_rules! settings {
    (ints: $($i:ident),*; flags: $($f:ident),*;) => {
        const INTS: &[&str] = &[$(stringify!($i)),*];
        const FLAGS: &[&str] = &[$(stringify!($f)),*];
        /// The integers, then the flags.
        fn unpack(s: &DhtSettings) -> (Vec<usize>, Vec<bool>) {
            (vec![$(s.$i),*], vec![$(s.$f),*])
        }
        fn pack(i: &[usize], f: &[bool]) -> DhtSettings {
            let (mut i, mut f) = (i.iter(), f.iter());
            DhtSettings { $($i: *i.next().unwrap(),)* $($f: *f.next().unwrap(),)* }
        }
    };
}
settings! {
    ints: max_peers_reply, search_branching, max_fail_count, max_torrents, max_dht_items, max_peers, max_torrent_search_reply,
          block_timeout, block_ratelimit, item_lifetime, upload_rate_limit, sample_infohashes_interval, max_infohashes_sample_count;
    flags: restrict_routing_ips, restrict_search_ips, extended_routing_table, aggressive_lookups, privacy_lookups, enforce_node_id,
           ignore_dark_internet, read_only;
}
fn d03_one(ints: &[usize], flags: &[bool]) -> R {
    let s = pack(ints, flags);
    let saved = s.save();
    let d = match of_value(&saved) {
        Val::Dict(d) => d,
        v => return Err(format!("settings are saved as {}", brief(&v))),
    };
    for (k, &v) in INTS.iter().zip(ints) {
        match d.get(*k) {
            Some(Val::Int(n)) => ensure!(v > i64::MAX as usize || *n == v as i64, "{} = {} is saved as {}", k, v, n),
            o => return Err(format!("{} = {} is saved as {:?}", k, v, o)),
        }
    }
    for (k, &v) in FLAGS.iter().zip(flags) {
        ensure_eq!(d.get(*k), Some(&Val::Int(v as i64)), "{} = {} as saved", k, v);
    }
    let bytes = saved.to_vec();
    let back = ValueRef::decode(&bytes).map_err(|e| format!("the saved settings do not decode: {}", e))?;
    let (i, f) = unpack(&DhtSettings::read(&back));
    for k in 0..ints.len() {
        ensure_eq!(i[k], ints[k], "{} after a save and reload", INTS[k]);
    }
    for k in 0..flags.len() {
        ensure_eq!(f[k], flags[k], "{} after a save and reload", FLAGS[k]);
    }
    Ok(())
}
fn setting(s: &mut Src) -> usize {
    match s.weighted(&[3, 3, 2, 1]) {
        0 => s.usize(10),
        1 => s.int().unsigned_abs() as usize,
        2 => s.usize(100_000),
        _ => *s.pick(&[usize::MAX, 1 << 63, (1 << 63) - 1, 1 << 31, 1 << 32, usize::MAX - 1]),
    }
}
/// Settings that bytes spell.
fn d03_bytes(b: &[u8]) -> R {
    let at = |k: usize| b.get(k).copied().unwrap_or(0);
    let ints: Vec<usize> = (0..INTS.len()).map(|k| at(3 * k) as usize * 65_536 + at(3 * k + 1) as usize * 256 + at(3 * k + 2) as usize).collect();
    let flags: Vec<bool> = (0..FLAGS.len()).map(|k| at(3 * INTS.len() + k / 8) >> (k % 8) & 1 == 1).collect();
    d03_one(&ints, &flags)
}
fn d03(c: &mut Ctx) -> R {
    if c.s.chance(1, 12) {
        let b = c.s.bytes(3 * INTS.len() + 1);
        return turns::twins(c, b, d03_bytes);
    }
    let (mut ints, mut flags) = unpack(&DhtSettings::default());
    if c.s.chance(1, 3) {
        // one setting changed from the defaults
        let k = c.s.usize(ints.len() + flags.len());
        if k < ints.len() {
            ints[k] = setting(&mut c.s)
        } else {
            flags[k - ints.len()] ^= true
        }
        c.label("one setting changed");
    } else {
        for v in ints.iter_mut() {
            *v = setting(&mut c.s)
        }
        for v in flags.iter_mut() {
            *v = c.s.bool()
        }
    }
    c.key(&(&ints, &flags));
    c.nontrivial(true);
    c.label_if(ints.iter().any(|&v| v > i64::MAX as usize), "beyond the signed range");
    c.show(|| format!("{:?} {:?}", INTS.iter().zip(&ints).collect::<Vec<_>>(), FLAGS.iter().zip(&flags).collect::<Vec<_>>()));
    d03_one(&ints, &flags)
}
pub const D03: Prop = Prop {
    id: "D03",
    rule: "random assignments of all 21 settings (boundary values up to the machine maximum) and single changes from the defaults; every flag combination and every setting at each boundary and around every power of two enumerated. All cases are non-trivial.",
    assumptions: &[],
    quick: 1_200_000,
    thorough: 6_000_000,
    case: d03,
    phases: &[Phase {
        name: "flag combinations and single settings",
        count: |_| 256 + 13 * 8 + 13 * 64 * 3,
        run: |c, i| {
            let (mut ints, mut flags) = unpack(&DhtSettings::default());
            if i < 256 {
                for (k, f) in flags.iter_mut().enumerate() {
                    *f = i >> k & 1 == 1
                }
            } else if i >= 256 + 104 {
                let i = i as usize - 360;
                ints[i / 192] = (1usize << (i / 3 % 64)).wrapping_add(i % 3).wrapping_sub(1);
            } else {
                let i = i as usize - 256;
                ints[i / 8] = [0, 1, 255, 65536, 1 << 32, i64::MAX as usize, 77, usize::MAX][i % 8];
            }
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("{:?} {:?}", ints, flags));
            d03_one(&ints, &flags)
        },
    }],
    terminates: true,
    extra: None,
};

fn d04(c: &mut Ctx) -> R {
    let twins = c.s.chance(1, 12);
    let mut doc = if c.s.chance(1, 20) {
        model::val(&mut c.s, 2)
    } else {
        let mut d = BTreeMap::new();
        for k in INTS.iter().chain(FLAGS) {
            match c.s.weighted(&[5, 5, 3]) {
                0 => {}
                1 => {
                    let n = if FLAGS.contains(k) && c.s.bool() { c.s.usize(2) as i64 } else { c.s.int() };
                    d.insert(k.to_string(), Val::Int(n));
                }
                _ => {
                    let v = match c.s.usize(4) {
                        0 => Val::str("1"),
                        1 => Val::List(vec![Val::Int(c.s.int())]),
                        2 => Val::Dict(BTreeMap::new()),
                        _ => model::val(&mut c.s, 1),
                    };
                    d.insert(k.to_string(), v);
                }
            }
        }
        let extra = c.s.list(4, 1, |s| {
            let k = match s.usize(3) {
                0 => model::key(s),
                1 => s.pick(INTS).to_uppercase(),
                _ => format!("{}_", s.pick(FLAGS)),
            };
            (k, model::val(s, 1))
        });
        for (k, v) in extra {
            d.entry(k).or_insert(v);
        }
        Val::Dict(d)
    };
    if c.s.chance(1, 8) {
        model::misplace(&mut c.s, &mut doc);
        c.label("something in another form");
    }
    if twins {
        return turns::twins(c, doc.to_vec(), |b| model::decode(b).map_or(Ok(()), |doc| d04_judge(&doc)));
    }
    c.key(&doc.to_vec());
    c.show(|| brief(&doc));
    d04_one(c, &doc)
}
fn d04_one(c: &mut Ctx, doc: &Val) -> R {
    for k in INTS.iter().chain(FLAGS) {
        let v = if let Val::Dict(d) = doc { d.get(*k) } else { None };
        c.nontrivial(v.is_some());
        c.label_if(matches!(v, Some(Val::Int(n)) if *n < 0), "negative integer");
        c.label_if(v.map_or(false, |v| !matches!(v, Val::Int(_))), "mistyped entry");
    }
    d04_judge(doc)
}
fn d04_judge(doc: &Val) -> R {
    let (dints, dflags) = unpack(&DhtSettings::default());
    let get = |k: &str| if let Val::Dict(d) = doc { d.get(k) } else { None };
    let (ints, flags) = unpack(&DhtSettings::read(&to_ref(doc)));
    for k in 0..ints.len() {
        match get(INTS[k]) {
            Some(Val::Int(n)) if *n >= 0 => ensure_eq!(ints[k], *n as usize, "{} read from {}", INTS[k], brief(doc)),
            Some(Val::Int(_)) => {}
            _ => ensure_eq!(ints[k], dints[k], "{} (default) read from {}", INTS[k], brief(doc)),
        }
    }
    for k in 0..flags.len() {
        let want = match get(FLAGS[k]) {
            Some(Val::Int(n)) => *n != 0,
            _ => dflags[k],
        };
        ensure_eq!(flags[k], want, "{} read from {}", FLAGS[k], brief(doc));
    }
    Ok(())
}
pub const D04: Prop = Prop {
    id: "D04",
    rule: "random documents in which each setting is missing, an integer or of another kind, with unknown and misspelled keys, and arbitrary documents; each setting alone with values of every kind and magnitude enumerated, and all among up to 262145 other keys. Non-trivial: at least one setting present.",
    assumptions: &["what a negative integer means for a count is left open; reading it must not panic"],
    quick: 900_000,
    thorough: 6_000_000,
    case: d04,
    phases: &[Phase {
        name: "each setting alone with each kind",
        count: |_| 21 * 10 + 8,
        run: |c, i| {
            let kinds = |i: u64| match i {
                0 => Val::Int(0),
                1 => Val::Int(1),
                2 => Val::Int(i64::MAX),
                3 => Val::Int(i64::MIN),
                4 => Val::Int(2),
                5 => Val::str("1"),
                6 => Val::Bytes(vec![]),
                7 => Val::List(vec![]),
                8 => Val::Dict(BTreeMap::new()),
                _ => Val::List(vec![Val::Int(7)]),
            };
            let doc = if i < 210 {
                let k = (i / 10) as usize;
                let k = if k < 13 { INTS[k] } else { FLAGS[k - 13] };
                Val::Dict([(k.to_string(), kinds(i % 10))].into_iter().collect())
            } else {
                kinds(i - 208)
            };
            c.key(&doc.to_vec());
            c.nontrivial(true);
            c.show(|| brief(&doc));
            d04_one(c, &doc)
        },
    }, Phase {
        name: "among many other keys, and every size of integer",
        count: |t| (model::sizes().len() as u64 + 21 * 64) * if t { 20 } else { 1 },
        run: |c, i| {
            let i = i % (model::sizes().len() as u64 + 21 * 64);
            let mut d = BTreeMap::new();
            if i < 21 * 64 {
                let k = (i / 64) as usize;
                let k = if k < 13 { INTS[k] } else { FLAGS[k - 13] };
                let n = (1u64 << (i % 64)).wrapping_sub(c.s.below(3)) as i64;
                d.insert(k.to_string(), Val::Int(n));
            } else {
                for k in INTS.iter().chain(FLAGS) {
                    if c.s.chance(2, 3) {
                        d.insert(k.to_string(), Val::Int(c.s.int().unsigned_abs() as i64 & i64::MAX));
                    }
                }
                for x in 0..model::sizes()[i as usize - 21 * 64] {
                    d.insert(format!("{}{:x}", INTS[x % 13], x), Val::Int(x as i64));
                }
            }
            let doc = Val::Dict(d);
            c.key(&doc.to_vec());
            c.nontrivial(true);
            c.show(|| brief(&doc));
            d04_one(c, &doc)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D05: compact addresses -----------------------------------------------------------------------------------------

/// Delivers at most `portion` bytes per call, interrupted every other call when asked.
struct Slow<'a> {
    b: &'a [u8],
    at: usize,
    portion: usize,
    interrupt: bool,
    calls: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = out.len().min(self.portion).min(self.b.len() - self.at);
        out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn d05_one(ip: IpAddr, port: u16, tail: &[u8], portion: usize, interrupt: bool) -> R {
    let mut w = vec![];
    detail::write_address(&mut w, &ip).map_err(|e| e.to_string())?;
    let oct = model::ip_octets(&ip);
    ensure!(w == oct, "{} is written as {}", ip, model::hex(&w));
    let sa = SocketAddr::new(ip, port);
    let mut w = vec![];
    detail::write_socket_addr(&mut w, &sa).map_err(|e| e.to_string())?;
    let full = contact_bytes(&sa);
    ensure!(w == full, "{} is written as {}", sa, model::hex(&w));
    if let IpAddr::V6(ip) = ip {
        for (flow, scope) in [(1, 0), (0, 1), (0xfffff, u32::MAX)] {
            let sa = SocketAddr::V6(SocketAddrV6::new(ip, port, flow, scope));
            let mut w = vec![];
            detail::write_socket_addr(&mut w, &sa).map_err(|e| e.to_string())?;
            ensure!(w == full, "{} with flow {} is written as {}", sa, flow, model::hex(&w));
        }
    }
    for n in (0..=full.len()).chain([full.len() + tail.len()]) {
        // the first n bytes, or all of them and the tail
        let input = [&full[..], tail].concat();
        let input = &input[..n];
        for end in [false, true] {
            let mut r = Slow { b: input, at: 0, portion, interrupt, calls: 0 };
            let (got, need) = if end {
                (if ip.is_ipv4() { detail::read_v4_socket_address(&mut r) } else { detail::read_v6_socket_address(&mut r) }, full.len())
            } else {
                (if ip.is_ipv4() { detail::read_v4_address(&mut r) } else { detail::read_v6_address(&mut r) }.map(|ip| SocketAddr::new(ip, port)), oct.len())
            };
            match got {
                Ok(a) => {
                    ensure!(n >= need, "{} of the {} bytes of {} are read as {}", n, need, sa, a);
                    ensure!(a == sa, "{} is read back as {}", sa, a);
                    ensure!(r.at == need, "reading {} consumes {} bytes instead of {}", sa, r.at, need);
                }
                Err(e) => ensure!(n < need, "reading {} fails: {}", sa, e),
            }
        }
    }
    Ok(())
}
/// An endpoint that bytes spell.
fn d05_bytes(b: &[u8]) -> R {
    let mut a = [0; 18];
    a.iter_mut().zip(b).for_each(|(x, y)| *x = *y);
    let port = u16::from_be_bytes([a[0], a[1]]);
    let ip = if b.len() < 18 { ip_of(&a[2..6]) } else { ip_of(&a[2..]) };
    d05_one(ip.unwrap(), port, b"", usize::MAX, false)
}
fn d05(c: &mut Ctx) -> R {
    if c.s.chance(1, 20) {
        let n = *c.s.pick(&[6, 18]);
        let b = c.s.bytes(n);
        return turns::twins(c, b, d05_bytes);
    }
    let (ip, port) = (c.s.ip(), c.s.port());
    let tail = c.s.blob(30);
    let (portion, interrupt) = (if c.s.bool() { 1 + c.s.usize(18) } else { usize::MAX }, c.s.chance(1, 3));
    c.label(if ip.is_ipv4() { "IPv4" } else { "IPv6" });
    c.label_if(portion < 18, "input in portions");
    c.key(&(ip, port, &tail, portion, interrupt));
    c.nontrivial(true);
    c.show(|| format!("{} followed by {}, portions of {}, interruptions {}", SocketAddr::new(ip, port), show(&tail), portion as isize, interrupt));
    d05_one(ip, port, &tail, portion, interrupt)
}
pub const D05: Prop = Prop {
    id: "D05",
    rule: "random addresses and ports of both families written, and read back whole, with bytes following, and cut at every byte, from readers delivering small portions with interruptions; every port enumerated for both families. All cases are non-trivial.",
    assumptions: &["the compact form cannot carry an IPv6 flow and scope, which change nothing"],
    quick: 1_800_000,
    thorough: 6_000_000,
    case: d05,
    phases: &[Phase {
        name: "every port",
        count: |_| 65536,
        run: |c, i| {
            let v4: IpAddr = [1, 2, 3, 4].into();
            let v6: IpAddr = [0x102u16, 0x304, 0x506, 0x708, 0x90a, 0xb0c, 0xd0e, 0xf10].into();
            c.key(&i);
            c.nontrivial(true);
            c.show(|| format!("port {}", i));
            d05_one(v4, i as u16, b"x", usize::MAX, false)?;
            d05_one(v6, i as u16, b"", usize::MAX, false)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D14: distance --------------------------------------------------------------------------------------------------

pub fn exp(a: &[u8; 20], b: &[u8; 20]) -> usize {
    // highest differing bit, counted from the least significant one
    (0..160).rev().find(|&e| (a[19 - e / 8] ^ b[19 - e / 8]) >> (e % 8) & 1 == 1).unwrap_or(0)
}
fn d14_pair(a: &[u8; 20], b: &[u8; 20]) -> R {
    let (x, y) = (Sha1Hash::from(*a), Sha1Hash::from(*b));
    let want = exp(a, b);
    ensure_eq!(node::distance_exp(&x, &y), want, "distance exponent of {} and {}", model::hex(a), model::hex(b));
    ensure_eq!(node::distance_exp(&y, &x), want, "distance exponent of {} and {}", model::hex(b), model::hex(a));
    ensure_eq!(node::min_distance_exp(&x, &[y]), want, "minimum distance exponent of {} to only {}", model::hex(a), model::hex(b));
    Ok(())
}
fn related(s: &mut Src, a: &[u8; 20]) -> [u8; 20] {
    match s.weighted(&[3, 4, 1]) {
        0 => s.id(),
        1 => {
            // agrees above a random bit
            let e = s.usize(160);
            let r = s.id();
            let mut b = *a;
            for k in 0..e {
                let m = 1 << (k % 8);
                b[19 - k / 8] = b[19 - k / 8] & !m | r[19 - k / 8] & m;
            }
            b[19 - e / 8] ^= 1 << (e % 8);
            b
        }
        _ => *a,
    }
}
/// Identifiers that bytes spell.
fn d14_bytes(b: &[u8]) -> R {
    let ids: Vec<[u8; 20]> = b.chunks_exact(20).map(|k| k.try_into().unwrap()).collect();
    if let [a, list @ ..] = &ids[..] {
        for b in list {
            d14_pair(a, b)?;
        }
        if !list.is_empty() {
            let want = list.iter().map(|b| exp(a, b)).min().unwrap();
            let ids: Vec<Sha1Hash> = list.iter().map(|b| Sha1Hash::from(*b)).collect();
            ensure_eq!(node::min_distance_exp(&Sha1Hash::from(*a), &ids), want, "minimum distance exponent of {} to {:?}", model::hex(a), list.iter().map(|b| model::hex(b)).collect::<Vec<_>>());
        }
    }
    Ok(())
}
fn d14(c: &mut Ctx) -> R {
    if c.s.chance(1, 20) {
        let n = 2 + c.s.usize(4);
        let a = c.s.id();
        let b: Vec<u8> = (0..n).flat_map(|_| related(&mut c.s, &a)).collect();
        return turns::twins(c, b, d14_bytes);
    }
    let a = c.s.id();
    let n = 1 + c.s.usize(8);
    let list: Vec<[u8; 20]> = (0..n).map(|_| c.s.span(|s| related(s, &a))).collect();
    c.key(&(&a, &list));
    c.nontrivial(list.iter().any(|b| *b != a));
    c.label_if(list.contains(&a), "equal identifiers");
    c.label_if(list.len() > 1, "several identifiers");
    c.show(|| format!("{} to {:?}", model::hex(&a), list.iter().map(|b| model::hex(b)).collect::<Vec<_>>()));
    for b in &list {
        d14_pair(&a, b)?;
    }
    let want = list.iter().map(|b| exp(&a, b)).min().unwrap();
    let mut ids: Vec<Sha1Hash> = list.iter().map(|b| Sha1Hash::from(*b)).collect();
    for k in 0..n {
        ensure_eq!(node::min_distance_exp(&Sha1Hash::from(a), &ids), want, "minimum distance exponent of {} to {:?}", model::hex(&a), ids.iter().map(|b| b.to_string()).collect::<Vec<_>>());
        if k % 2 == 0 {
            ids.reverse();
        } else {
            ids.rotate_left(1);
        }
    }
    Ok(())
}
pub const D14: Prop = Prop {
    id: "D14",
    rule: "random identifiers against one to eight others that are unrelated, equal, or agree above a random bit, in several orders; every differing bit on several bases, alone and with all lower bits differing, enumerated; lists of every length up to 300 and some up to 262145 with the nearest at a random, the first or the last place. Non-trivial: at least one differs.",
    assumptions: &["the list of identifiers is not empty, as the function requires"],
    quick: 1_000_000,
    thorough: 10_000_000,
    case: d14,
    phases: &[Phase {
        name: "every differing bit",
        count: |_| 160 * 3 * 4 + 4,
        run: |c, i| {
            let base = [[0u8; 20], [0xff; 20], [0xa5; 20], [7, 1, 2, 3, 4, 5, 6, 0, 8, 9, 10, 0xff, 12, 13, 0x80, 15, 16, 17, 18, 19]][(i % 4) as usize];
            let mut b = base;
            if i < 160 * 12 {
                let e = (i / 12) as usize;
                b[19 - e / 8] ^= 1 << (e % 8);
                if i / 4 % 3 == 1 {
                    for k in 0..e {
                        b[19 - k / 8] ^= 1 << (k % 8);
                    }
                }
                if i / 4 % 3 == 2 && e > 0 {
                    b[19] ^= 1;
                }
            }
            c.key(&(base, b));
            c.nontrivial(true);
            c.show(|| format!("{} and {}", model::hex(&base), model::hex(&b)));
            d14_pair(&base, &b)
        },
    }, Phase {
        name: "long lists",
        count: |t| (300 + 24) * if t { 200 } else { 6 },
        run: |c, i| {
            let i = (i % 324) as usize;
            let n = if i < 300 { i + 1 } else { model::sizes()[i - 300] };
            let a = c.s.id();
            // all at least `far` away, but for a nearer one at a random, the first or the last place
            let far = 1 + c.s.usize(159);
            let mut ids: Vec<[u8; 20]> = (0..n)
                .map(|k| {
                    let h = model::sha1(&(k as u64).to_le_bytes());
                    let e = far + (h[0] as usize) % (160 - far);
                    let mut b = a;
                    b[19 - e / 8] ^= 1 << (e % 8);
                    for (x, h) in b[20 - e / 8..].iter_mut().zip(&h) {
                        *x ^= *h;
                    }
                    b
                })
                .collect();
            let at = match c.s.usize(4) {
                0 => n - 1,
                1 => 0,
                _ => c.s.usize(n),
            };
            let near = c.s.usize(far);
            ids[at] = a;
            ids[at][19 - near / 8] ^= 1 << (near % 8);
            c.key(&(&a, n, at, near, far));
            c.nontrivial(true);
            c.label(if n < 300 { "up to 300 identifiers" } else { "over 300 identifiers" });
            c.show(|| format!("{} identifiers at least {} away from {}, number {} only {}", n, far, model::hex(&a), at, near));
            let want = ids.iter().map(|b| exp(&a, b)).min().unwrap();
            ensure_eq!(want, near, "the oracle's own distance");
            let ids: Vec<Sha1Hash> = ids.iter().map(|b| Sha1Hash::from(*b)).collect();
            ensure_eq!(node::min_distance_exp(&Sha1Hash::from(a), &ids), want, "minimum distance exponent of {} to {} identifiers, the nearest number {}", model::hex(&a), n, at);
            Ok(())
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D15: message verification --------------------------------------------------------------------------------------

fn d15(c: &mut Ctx) -> R {
    let mut m = if c.s.chance(1, 8) { model::val(&mut c.s, 2) } else { model::container(&mut c.s, 2) };
    if matches!(m, Val::List(_)) && !c.s.chance(1, 4) {
        // most messages are dictionaries
        if let Val::List(l) = m {
            m = Val::Dict(l.into_iter().map(|v| (model::key(&mut c.s), v)).collect());
        }
    }
    let mut present: Vec<String> = if let Val::Dict(d) = &m { d.keys().cloned().collect() } else { vec![] };
    if c.s.chance(1, 10) {
        model::misplace(&mut c.s, &mut m);
        c.label("something in another form");
    }
    if let (Val::Dict(d), true) = (&m, c.s.chance(1, 8)) {
        // keys of what is inside
        for v in d.values() {
            if let Val::Dict(d) = v {
                present.extend(d.keys().cloned());
            }
        }
    }
    let keys = c.s.list(12, 4, |s| {
        if !present.is_empty() && !s.chance(1, 6) {
            let k = s.pick(&present).clone();
            if s.chance(1, 12) {
                format!("{}x", k)
            } else {
                k
            }
        } else if present.is_empty() || s.chance(1, 3) {
            model::key(s)
        } else {
            s.pick(&present).clone()
        }
    });
    if c.s.chance(1, 12) {
        return turns::twins(c, m.to_vec(), |b| model::decode(b).map_or(Ok(()), |m| d15_judge(&m, &keys)));
    }
    d15_one(c, m, keys)
}
fn d15_one(c: &mut Ctx, m: Val, keys: Vec<String>) -> R {
    c.key(&(m.to_vec(), &keys));
    c.show(|| format!("{} requires {}", brief(&m), engine::clip(&keys)));
    let ok = matches!(&m, Val::Dict(d) if keys.iter().all(|k| d.contains_key(k)));
    c.label(if ok {
        "verified"
    } else if matches!(m, Val::Dict(_)) {
        "key missing"
    } else {
        "not a dictionary"
    });
    c.nontrivial(!keys.is_empty());
    d15_judge(&m, &keys)
}
fn d15_judge(m: &Val, keys: &[String]) -> R {
    let few = |k: &[String]| engine::clip(k);
    let r = to_ref(m);
    let nothing = ValueRef::Int(-77);
    let mut ret: Vec<&ValueRef> = vec![&nothing; keys.len()];
    let desc: Vec<msg::KeyDesc> = keys.iter().map(|k| msg::verif::required_key(k)).collect();
    let got = msg::verify_message_impl(&r, &desc, &mut ret);
    let ok = matches!(m, Val::Dict(d) if keys.iter().all(|k| d.contains_key(k)));
    ensure_eq!(got.is_ok(), ok, "verifying {} against {}", brief(m), few(keys));
    if ok {
        if let (Val::Dict(d), ValueRef::Dict(rd)) = (m, &r) {
            for (k, v) in keys.iter().zip(&ret) {
                ensure!(of_ref(v) == d[k], "key {:?} of {} gives {}", k, brief(m), brief(&of_ref(v)));
                ensure!(std::ptr::eq(*v, &rd[&k[..]]), "key {:?} of {} does not refer to the message's own value", k, brief(m));
            }
        }
    }
    ensure!(of_ref(&r) == *m, "verification changes the message");
    Ok(())
}
pub const D15: Prop = Prop {
    id: "D15",
    rule: "random messages, mostly dictionaries, against up to 12 required keys that are present, repeated, misspelled or absent; and up to 262145 of both. Non-trivial: at least one key.",
    assumptions: &["as many output slots as keys, as the function requires"],
    quick: 1_000_000,
    thorough: 10_000_000,
    case: d15,
    phases: &[Phase {
        name: "many keys",
        count: |t| 200 + model::sizes().len() as u64 * 3 * if t { 30 } else { 1 },
        run: |c, i| {
            let i = i as usize;
            let n = if i < 200 { i + 1 } else { model::sizes()[(i - 200) % model::sizes().len()] };
            let m = Val::Dict((0..n).map(|k| (format!("{:x}", k), if k % 7 == 3 { Val::str(&k.to_string()) } else { Val::Int(k as i64) })).collect());
            let mut keys: Vec<String> = (0..n).map(|k| format!("{:x}", k)).collect();
            match c.s.usize(4) {
                0 => keys.reverse(),
                1 => {
                    let k = c.s.usize(n);
                    keys.rotate_left(k)
                }
                2 => {
                    // one is missing, somewhere
                    let k = c.s.usize(n);
                    keys[k].push('x')
                }
                _ => {
                    let k = c.s.usize(n);
                    let j = c.s.usize(n);
                    keys[k] = keys[j].clone();
                    let last = keys[n - 1].clone();
                    keys.push(last);
                }
            }
            d15_one(c, m, keys)
        },
    }],
    terminates: true,
    extra: None,
};


// ---- D19: values in turn ----------------------------------------------------------------------------------------------

pub const CALLS: [&str; 13] = [
    "save and read a state",
    "read a state",
    "save and read settings",
    "read settings",
    "compact addresses",
    "distances",
    "verify a message",
    // one call of one function each
    "write an address",
    "read an address",
    "distance",
    "minimum distance",
    "verify once",
    "extract identifiers",
];
pub fn call(k: usize, b: &[u8]) -> R {
    let doc = || model::decode(b);
    match k {
        0 => d01_bytes(b),
        1 => doc().map_or(Ok(()), |v| d02_judge(&v)),
        2 => d03_bytes(b),
        3 => doc().map_or(Ok(()), |v| d04_judge(&v)),
        4 => d05_bytes(b),
        5 => d14_bytes(b),
        7 | 8 => {
            let full = if b.len() < 18 { 6 } else { 18 };
            let mut a = b.to_vec();
            a.resize(full, 0);
            let sa = SocketAddr::new(ip_of(&a[..full - 2]).unwrap(), u16::from_be_bytes([a[full - 2], a[full - 1]]));
            if k == 7 {
                let mut w = vec![];
                detail::write_socket_addr(&mut w, &sa).map_err(|e| e.to_string())?;
                ensure!(w == a, "{} is written as {}", sa, model::hex(&w));
            } else {
                let mut r = &a[..];
                let got = if full == 6 { detail::read_v4_socket_address(&mut r) } else { detail::read_v6_socket_address(&mut r) };
                ensure!(matches!(&got, Ok(g) if *g == sa), "{} is read as {:?}", model::hex(&a), got);
            }
            Ok(())
        }
        9 | 10 => {
            let ids: Vec<[u8; 20]> = b.chunks_exact(20).map(|k| k.try_into().unwrap()).collect();
            if let [a, list @ ..] = &ids[..] {
                if k == 9 && !list.is_empty() {
                    ensure_eq!(node::distance_exp(&Sha1Hash::from(*a), &Sha1Hash::from(list[0])), exp(a, &list[0]), "distance exponent of {} and {}", model::hex(a), model::hex(&list[0]));
                } else if !list.is_empty() {
                    let want = list.iter().map(|b| exp(a, b)).min().unwrap();
                    let ids: Vec<Sha1Hash> = list.iter().map(|b| Sha1Hash::from(*b)).collect();
                    ensure_eq!(node::min_distance_exp(&Sha1Hash::from(*a), &ids), want, "minimum distance exponent of {} to {:?}", model::hex(a), list.iter().map(|b| model::hex(b)).collect::<Vec<_>>());
                }
            }
            Ok(())
        }
        11 => doc().map_or(Ok(()), |v| {
            let keys: Vec<String> = if let Val::Dict(d) = &v { d.keys().take(3).cloned().chain(if b.len() % 3 == 0 { Some("absent".to_string()) } else { None }).collect() } else { vec!["a".into()] };
            d15_judge(&v, &keys)
        }),
        12 => doc().map_or(Ok(()), |v| {
            let want = expect_ids(if let Val::Dict(d) = &v { d.get("node-id") } else { None });
            let got = dht::state::extract_node_ids(&to_ref(&v), "node-id").map_err(|e| format!("extracting from {} fails: {}", brief(&v), e))?;
            let got: Vec<(IpAddr, [u8; 20])> = got.iter().map(|(a, id)| (*a, <[u8; 20]>::try_from(&id[..]).unwrap())).collect();
            ensure_eq!(got, want, "identifiers of {}", brief(&v));
            Ok(())
        }),
        _ => doc().map_or(Ok(()), |v| {
            let mut keys: Vec<String> = if let Val::Dict(d) = &v { d.keys().rev().take(6).cloned().collect() } else { vec!["a".into()] };
            d15_judge(&v, &keys)?;
            keys.push("absent".into());
            d15_judge(&v, &keys)
        }),
    }
}
/// A document that means something to one of the calls.
pub fn telling(s: &mut Src) -> Vec<u8> {
    match s.usize(4) {
        0 => {
            let n = s.usize(400);
            s.bytes(n)
        }
        1 => {
            let mut d = BTreeMap::new();
            let some = s.bool();
            for (k, good) in [("node-id", &[24usize, 36][..]), ("nodes", &[6, 18]), ("nodes6", &[18, 6])] {
                if some && s.bool() {
                    continue;
                }
                d.insert(k.to_string(), entries(s, good));
            }
            Val::Dict(d).to_vec()
        }
        2 => {
            let mut d = BTreeMap::new();
            for k in INTS.iter().chain(FLAGS) {
                if s.bool() {
                    d.insert(k.to_string(), Val::Int(s.int()));
                }
            }
            Val::Dict(d).to_vec()
        }
        _ => model::container(s, 2).to_vec(),
    }
}
