//! D20: what a storage does for one torrent or item costs no more because there are others; D21: reading and writing node
//! states in keeping with their length.
use bencode::{Value, ValueRef};
use common::sha1::Sha1Hash;
use common::types::{PublicKey, SequenceNumber, Signature};
use dht::settings::DhtSettings;
use dht::state::DhtState;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use engine::model::Val;
use engine::pace::{time, within};
use engine::{ensure, Ctx, Prop, R};
use std::collections::BTreeMap;
use std::hint::black_box;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

/// Operations per timed run.
const OPS: u64 = 1500;

fn id(salt: u64, i: u64) -> Sha1Hash {
    let mut v = [0u8; 20];
    let mut x = salt ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in v.chunks_mut(4) {
        x = (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(i + 1);
        b.copy_from_slice(&((x >> 24) as u32).to_be_bytes());
    }
    Sha1Hash::from(v)
}
fn ip(v6: bool, n: u64) -> IpAddr {
    if v6 {
        IpAddr::V6(Ipv6Addr::from(0x2001_0db8_u128 << 96 | n as u128))
    } else {
        IpAddr::V4(Ipv4Addr::from(0x0a00_0000 + n as u32))
    }
}
const KINDS: [&str; 12] = [
    "announcing known peers",
    "announcing new peers",
    "announcing torrents there is no room for",
    "asking for peers",
    "asking for peers in bloom filters",
    "asking for peers of torrents not stored",
    "putting an immutable item again",
    "getting immutable items",
    "getting items not stored",
    "putting a mutable item again",
    "getting mutable items",
    "reading the counters",
];
struct Plan {
    kind: usize,
    salt: u64,
    v6: bool,
    /// subjects: torrents and items all operations are on
    subjects: u64,
    full: bool,
    items: bool,
}
/// A storage with the subjects and `others` more, the CPU seconds they took, and those of the operations.
fn run(p: &Plan, others: u64) -> Result<(f64, f64), String> {
    let n = (others + p.subjects) as usize;
    let mut set = DhtSettings::default();
    let room = if p.full { 0 } else { 1 << 20 };
    set.max_torrents = n + room;
    set.max_dht_items = n + room;
    if p.kind == 2 {
        set.max_torrents = n;
    }
    let set = set;
    let mut st = DefaultDhtStorage::new(&set);
    st.update_node_ids(&[id(p.salt, 1 << 40)]);
    let (sig, pk) = (Signature::default(), PublicKey::default());
    let (filled, _) = time(|| {
        for i in 0..others + p.subjects {
            let t = id(p.salt, i);
            if p.kind < 6 || p.kind == 11 {
                st.announce_peer(&t, &SocketAddr::new(ip(p.v6, i % 5), 6881), "", i % 2 == 0);
            }
            if (p.kind >= 6 && p.kind < 9) || p.kind == 11 {
                st.put_immutable_item(&t, b"i1e", &ip(p.v6, i));
            }
            if p.kind >= 8 {
                st.put_mutable_item(&t, b"i1e", &sig, 1, &pk, b"", &ip(p.v6, i));
            }
        }
    });
    let mut least = f64::MAX;
    for round in 0..4u64 {
        let (t, r) = time(|| -> R {
            for k in 0..OPS {
                // the subjects are the last ones stored
                let t = id(p.salt, others + k % p.subjects);
                let gone = id(p.salt, (1 << 41) + k);
                let me = SocketAddr::new(ip(p.v6, k % 5), 6881);
                match p.kind {
                    0 => st.announce_peer(&t, &me, "name", k % 3 == 0),
                    1 => st.announce_peer(&t, &SocketAddr::new(ip(p.v6, 1000 + k % 900), 1 + (round * OPS + k) as u16 % 50), "", k % 3 == 0),
                    2 => st.announce_peer(&gone, &me, "name", true),
                    3 | 4 | 5 => {
                        let mut v = Value::with_dict(BTreeMap::new());
                        st.get_peers(if p.kind == 5 { &gone } else { &t }, k % 2 == 0, p.kind == 4, &me, &mut v).map_err(|e| e.to_string())?;
                        black_box(v);
                    }
                    6 => st.put_immutable_item(&t, b"i1e", &ip(p.v6, k)),
                    7 | 8 => {
                        let mut v = Value::with_dict(BTreeMap::new());
                        let t = if p.kind == 8 { &gone } else { &t };
                        black_box(st.get_immutable_item(t, &mut v));
                        if p.kind == 8 {
                            black_box(st.get_mutable_item(t, 0, true, &mut v));
                            let mut q: SequenceNumber = 0;
                            black_box(st.get_mutable_item_seq(t, &mut q));
                        }
                    }
                    9 => st.put_mutable_item(&t, b"i2e", &sig, (round * OPS + k) as i64 / if p.items { 1 } else { 9 }, &pk, b"", &ip(p.v6, k)),
                    10 => {
                        let mut v = Value::with_dict(BTreeMap::new());
                        let mut q: SequenceNumber = 0;
                        black_box(st.get_mutable_item(&t, 0, k % 2 == 0, &mut v));
                        black_box(st.get_mutable_item_seq(&t, &mut q));
                    }
                    _ => {
                        black_box(st.counters());
                    }
                }
            }
            Ok(())
        });
        r?;
        least = least.min(t);
    }
    Ok((filled, least))
}
fn d20(c: &mut Ctx) -> R {
    let kind = c.s.usize(KINDS.len());
    let p = Plan {
        kind,
        salt: c.s.u64(),
        v6: c.s.bool(),
        subjects: 1 + c.s.u64() % 8,
        full: c.s.bool(),
        items: c.s.bool(),
    };
    let others = *c.s.pick(&[30_000u64, 40_000, 60_000]);
    c.key(&(kind, p.salt, others));
    c.label(KINDS[kind]);
    c.label_if(p.full, "a full storage");
    c.nontrivial(true);
    c.show(|| format!("{} of {} stored among {} others{}{}", KINDS[kind], p.subjects, others, if p.v6 { ", IPv6" } else { "" }, if p.full { ", no room for more" } else { "" }));
    let (_, alone) = run(&p, 0)?;
    let (mut fill, mut among) = run(&p, others)?;
    let most = 10.0 * alone + 0.045;
    // three microseconds is what one takes here
    let fill_most = 0.25 + others as f64 * 30e-6;
    for _ in 0..2 {
        if among > most || fill > fill_most {
            let (f, a) = run(&p, others)?;
            fill = fill.min(f);
            among = among.min(a);
        }
    }
    ensure!(among <= most, "{} {} times takes {:.4} s of CPU time, {:.4} s with {} others in the storage", KINDS[kind], OPS, alone, among, others);
    ensure!(fill <= fill_most, "storing {} torrents or items takes {:.2} s of CPU time, more than {:.2} s ({})", others, fill, fill_most, KINDS[kind]);
    Ok(())
}
pub const D20: Prop = Prop {
    id: "D20",
    rule: "1500 operations of one of twelve kinds (announces of known and new peers, for torrents there is no room for, peer queries of every kind, puts and gets of known items, gets of unknown ones, counters) on one to eight torrents or items, timed with nothing else in the storage and among 30000 to 60000 others, with and without room for more. All cases are non-trivial.",
    assumptions: &["among others the operations may take ten times as long and 0.045 s (30 microseconds each) more CPU time; storing takes at most 30 microseconds each; the least of at least four runs counts; what is put in place of something else is left out, since choosing what goes looks at all"],
    quick: 260,
    thorough: 20_000,
    case: d20,
    phases: &[],
    terminates: true,
    extra: None,
};

// ---- D21 ------------------------------------------------------------------------------------------------------------

/// Over ten times what is needed.
fn limit(n: usize) -> f64 {
    0.1 + n as f64 * 0.4e-6
}
const DOCS: [&str; 6] = ["node identifiers", "contacts", "contacts over IPv6", "entries of no known length", "unknown keys", "everything at once"];
fn d21(c: &mut Ctx) -> R {
    let kind = c.s.usize(8);
    let salt = c.s.u64();
    let n = *c.s.pick(&[20_000usize, 50_000, 90_000]);
    c.key(&(kind, salt, n));
    c.nontrivial(true);
    if kind == 6 {
        c.label("distances");
        c.show(|| format!("the least distance to {} identifiers, salt {:x}", n, salt));
        let ids: Vec<Sha1Hash> = (0..n as u64).map(|i| id(salt, i)).collect();
        let to = id(salt, 1 << 42);
        return within(&format!("the least distance to {} identifiers", n), limit(n), || drop(black_box(dht::node::min_distance_exp(&to, &ids))));
    }
    if kind == 7 {
        c.label("message keys");
        let (keys, wide) = (n / 4, n / 4);
        c.show(|| format!("{} keys looked up in a message of {} keys", keys, wide));
        let names: Vec<String> = (0..wide).map(|i| format!("key{:06}", i)).collect();
        let m = ValueRef::with_dict(names.iter().map(|k| (&k[..], ValueRef::with_int(1))).collect());
        let desc: Vec<_> = names.iter().rev().take(keys).map(|k| dht::msg::verif::required_key(k)).collect();
        let mut out = vec![&m; desc.len()];
        return within(&format!("verifying a message of {} keys with {} wanted", wide, keys), limit(20 * (wide + keys)), || drop(black_box(dht::msg::verify_message_impl(&m, &desc, &mut out).is_ok())));
    }
    let same = c.s.chance(1, 4);
    let mut d = BTreeMap::new();
    let mut list = |name: &str, len: usize| {
        let v = (0..n as u64)
            .map(|i| {
                let i = if same { 0 } else { i };
                let mut b = vec![];
                while b.len() < len {
                    b.extend_from_slice(&id(salt, i)[..]);
                    b.extend_from_slice(&i.to_be_bytes());
                }
                b.truncate(len);
                Val::Bytes(b)
            })
            .collect();
        d.insert(name.to_string(), Val::List(v));
    };
    match kind {
        0 => list("node-id", if salt % 2 == 0 { 24 } else { 36 }),
        1 => list("nodes", 6),
        2 => list("nodes6", 18),
        3 => {
            list("node-id", 25);
            list("nodes", 7);
            list("nodes6", 0);
        }
        4 => {}
        _ => {
            list("node-id", 36);
            list("nodes", 6);
            list("nodes6", 18);
        }
    }
    if kind == 4 {
        for i in 0..n {
            d.insert(format!("key{}", i), Val::Int(i as i64));
        }
    }
    let doc = Val::Dict(d).to_vec();
    let name = DOCS[kind];
    c.label(name);
    c.show(|| format!("a document of {} bytes: {} {}{}", doc.len(), n, name, if same { ", all alike" } else { "" }));
    let r = ValueRef::decode(&doc).map_err(|e| e.to_string())?;
    let l = limit(doc.len());
    let what = |op: &str| format!("{} ({} {}, {} bytes)", op, n, name, doc.len());
    within(&what("reading a node state"), l, || drop(black_box(DhtState::read(&r))))?;
    within(&what("extracting node identifiers"), l, || drop(black_box(dht::state::extract_node_ids(&r, "node-id"))))?;
    within(&what("reading settings"), l, || drop(black_box(DhtSettings::read(&r))))?;
    let st = DhtState::read(&r).map_err(|e| e.to_string())?;
    within(&what("saving a node state"), l, || drop(black_box(st.save())))
}
pub const D21: Prop = Prop {
    id: "D21",
    rule: "node state documents with 20000 to 90000 identifiers, contacts, entries of no known length, unknown keys or all of them, alike or different, read as state and as settings and saved again; the least distance to as many identifiers; a quarter as many keys wanted from a message of as many keys; each under a limit of CPU time. All cases are non-trivial.",
    assumptions: &["0.1 s + 0.4 microseconds per byte or identifier (8 per message key), over ten times what is needed here; the least of four runs counts"],
    quick: 200,
    thorough: 15_000,
    case: d21,
    phases: &[],
    terminates: true,
    extra: None,
};
