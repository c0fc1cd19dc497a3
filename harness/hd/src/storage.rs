//! Model-based histories over the DHT storage.
use crate::codec::exp;
use crate::conv::*;
use bencode::Value;
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{verif, DefaultDhtStorage, DhtStorage};
use engine::model::{self, Bloom, Val};
use engine::{turns, alloc, ensure, ensure_eq, Ctx, Phase, Prop, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr, SocketAddrV6};

type Id = [u8; 20];
fn h(id: &Id) -> Sha1Hash {
    Sha1Hash::from(*id)
}
fn hx(id: &Id) -> String {
    model::hex(&id[..4])
}
fn compact(ip: &IpAddr, port: u16) -> Vec<u8> {
    [&model::ip_octets(ip)[..], &[(port >> 8) as u8, port as u8]].concat()
}

#[derive(Clone, Debug)]
enum Op {
    Announce { t: Id, ep: SocketAddr, name: String, seed: bool },
    Peers { t: Id, no_seed: bool, scrape: bool, from: SocketAddr, reply: Val },
    PutImm { t: Id, item: Vec<u8>, ip: IpAddr },
    GetImm { t: Id, reply: Val },
    PutMut { t: Id, item: Vec<u8>, sig: u8, seq: i64, key: u8, ip: IpAddr },
    GetMut { t: Id, seq: i64, force: bool, reply: Val },
    GetSeq { t: Id, seq: i64 },
    Ids(Vec<Id>),
    /// nothing but time passes: so many milliseconds
    Wait(u64),
}
fn op_text(o: &Op) -> String {
    match o {
        Op::Announce { t, ep, name, seed } => format!("announce {} {}{}{}", hx(t), ep, if *seed { " seed" } else { "" }, if name.is_empty() { String::new() } else { format!(" {:?}", name.chars().take(110).collect::<String>()) }),
        Op::Peers { t, no_seed, scrape, from, reply } => format!("get_peers {} from {}{}{} into {}", hx(t), from, if *no_seed { " no-seed" } else { "" }, if *scrape { " scrape" } else { "" }, brief(reply)),
        Op::PutImm { t, item, ip } => format!("put {} {} by {}", hx(t), engine::show(item), ip),
        Op::GetImm { t, reply } => format!("get {} into {}", hx(t), brief(reply)),
        Op::PutMut { t, item, sig, seq, key, ip } => format!("put-mutable {} {} seq {} sig {} key {} by {}", hx(t), engine::show(item), seq, sig, key, ip),
        Op::GetMut { t, seq, force, reply } => format!("get-mutable {} seq {}{} into {}", hx(t), seq, if *force { " forced" } else { "" }, brief(reply)),
        Op::GetSeq { t, .. } => format!("get-seq {}", hx(t)),
        Op::Ids(v) => format!("node ids {:?}", v.iter().map(|i| model::hex(i)).collect::<Vec<_>>()),
        Op::Wait(ms) => format!("wait {}.{:03} s", ms / 1000, ms % 1000),
    }
}

// ---- reference model ------------------------------------------------------------------------------------------------

#[derive(Clone, Default)]
struct Torrent {
    name: String,
    /// (address, port) to whether the latest announce said seed
    peers: [BTreeMap<(IpAddr, u16), bool>; 2],
}
#[derive(Clone)]
struct Item {
    value: Vec<u8>,
    sig: u8,
    seq: i64,
    key: u8,
    ips: Bloom,
    announcers: usize,
}
impl Item {
    fn touch(&mut self, ip: &IpAddr) {
        let k = model::sha1(&model::ip_octets(ip));
        if !self.ips.find(&k) {
            self.ips.set(&k);
            self.announcers += 1;
        }
    }
}
struct Model {
    max_torrents: usize,
    max_peers: usize,
    max_items: usize,
    reply: usize,
    torrents: BTreeMap<Id, Torrent>,
    imm: BTreeMap<Id, Item>,
    muts: BTreeMap<Id, Item>,
    ids: Vec<Id>,
    /// every target used so far
    targets: BTreeSet<Id>,
    hashes: BTreeSet<Id>,
}
/// The signature and the key that stand for a number: some are all one byte.
fn sig_bytes(n: u8) -> Vec<u8> {
    (0..64).map(|k| if n < 4 || n > 251 { n } else { n.wrapping_add(k) }).collect()
}
fn key_bytes(n: u8) -> Vec<u8> {
    (0..32).map(|k| if n < 4 || n > 251 { n } else { n.wrapping_mul(3).wrapping_add(k) }).collect()
}
fn family(a: &SocketAddr) -> usize {
    a.is_ipv6() as usize
}
impl Model {
    fn importance(&self, t: &Id, i: &Item) -> isize {
        let d = self.ids.iter().map(|n| exp(t, n)).min().expect("node ids");
        (i.announcers / 5) as isize - d as isize
    }
    fn announce(&mut self, t: &Id, ep: &SocketAddr, name: &str, seed: bool) {
        self.hashes.insert(*t);
        if !self.torrents.contains_key(t) {
            if self.torrents.len() >= self.max_torrents {
                return;
            }
            self.torrents.insert(*t, Torrent::default());
        }
        let max = self.max_peers;
        let e = self.torrents.get_mut(t).unwrap();
        if e.name.is_empty() {
            e.name = name.chars().take(100).collect();
        }
        let p = &mut e.peers[family(ep)];
        let k = (ep.ip(), ep.port());
        if p.contains_key(&k) || p.len() < max {
            p.insert(k, seed);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Facet {
    Peers,
    Capacity,
    Scrape,
    Immutable,
    Mutable,
    Eviction,
    Counters,
}

fn entry<'a>(v: &'a Val, k: &str) -> Option<&'a Val> {
    match v {
        Val::Dict(d) => d.get(k),
        _ => None,
    }
}

struct Run<'a> {
    f: Facet,
    m: Model,
    s: DefaultDhtStorage<'a>,
    evictions: u32,
    drops: u32,
    full: u32,
    /// in large histories only every so many stores look at every target
    sparse: u32,
    stores: u32,
}

impl<'a> Run<'a> {
    fn new(f: Facet, set: &'a DhtSettings, ops: &[Op]) -> Self {
        Run {
            f,
            m: Model {
                max_torrents: set.max_torrents,
                max_peers: set.max_peers,
                max_items: set.max_dht_items,
                reply: set.max_peers_reply,
                torrents: BTreeMap::new(),
                imm: BTreeMap::new(),
                muts: BTreeMap::new(),
                ids: vec![],
                targets: BTreeSet::new(),
                hashes: BTreeSet::new(),
            },
            s: DefaultDhtStorage::new(set),
            evictions: 0,
            drops: 0,
            full: 0,
            sparse: if ids_used(ops) < 50 { 1 } else { 1 + ops.len() as u32 / 200 },
            stores: 0,
        }
    }
    fn is(&self, f: &[Facet]) -> bool {
        f.contains(&self.f)
    }

    fn step(&mut self, op: &Op) -> R {
        match op {
            Op::Announce { t, ep, name, seed } => {
                let before: usize = self.m.torrents.get(t).map_or(0, |e| e.peers[family(ep)].len());
                self.s.announce_peer(&h(t), ep, name, *seed);
                self.m.announce(t, ep, name, *seed);
                let after = self.m.torrents.get(t).map(|e| &e.peers[family(ep)]);
                if after.map_or(true, |p| p.len() == before && !p.contains_key(&(ep.ip(), ep.port()))) {
                    self.drops += 1;
                }
            }
            Op::Peers { t, no_seed, scrape, from, reply } => {
                self.m.hashes.insert(*t);
                self.lookup(t, *no_seed, *scrape, from, reply)?;
            }
            Op::PutImm { t, item, ip } => {
                self.m.targets.insert(*t);
                self.s.put_immutable_item(&h(t), item, ip);
                let new = !self.m.imm.contains_key(t);
                if let Some(i) = self.m.imm.get_mut(t) {
                    i.touch(ip);
                } else {
                    let mut i = Item { value: item.clone(), sig: 0, seq: 0, key: 0, ips: Bloom::new(128), announcers: 0 };
                    i.touch(ip);
                    self.stored(false, t, i)?;
                }
                self.after_store(false, t, new)?;
            }
            Op::PutMut { t, item, sig, seq, key, ip } => {
                self.m.targets.insert(*t);
                let mut g = Signature::default();
                g.copy_from_slice(&sig_bytes(*sig));
                let mut p = PublicKey::default();
                p.copy_from_slice(&key_bytes(*key));
                self.s.put_mutable_item(&h(t), item, &g, *seq, &p, &[*sig, *key], ip);
                let new = !self.m.muts.contains_key(t);
                if let Some(i) = self.m.muts.get_mut(t) {
                    if i.seq < *seq {
                        i.value = item.clone();
                        i.sig = *sig;
                        i.seq = *seq;
                    }
                    i.touch(ip);
                } else {
                    let mut i = Item { value: item.clone(), sig: *sig, seq: *seq, key: *key, ips: Bloom::new(128), announcers: 0 };
                    i.touch(ip);
                    self.stored(true, t, i)?;
                }
                self.after_store(true, t, new)?;
            }
            Op::GetImm { t, reply } => self.get_imm(t, reply)?,
            Op::GetMut { t, seq, force, reply } => self.get_mut(t, *seq, *force, reply)?,
            Op::GetSeq { t, seq } => {
                let mut n = *seq;
                let got = self.s.get_mutable_item_seq(&h(t), &mut n);
                if self.is(&[Facet::Mutable]) {
                    let want = self.m.muts.get(t);
                    ensure_eq!((got, n), (want.is_some(), want.map_or(*seq, |i| i.seq)), "get_mutable_item_seq of {}", hx(t));
                }
            }
            Op::Ids(v) => {
                self.m.ids = v.clone();
                self.s.update_node_ids(&v.iter().map(h).collect::<Vec<_>>());
            }
            Op::Wait(ms) => engine::clock::advance(*ms),
        }
        Ok(())
    }

    fn has(&self, mutable: bool, t: &Id) -> bool {
        if mutable {
            let mut n = 0;
            self.s.get_mutable_item_seq(&h(t), &mut n)
        } else {
            self.s.get_immutable_item(&h(t), &mut Value::with_dict(BTreeMap::new()))
        }
    }

    /// A store of a new target: what is there now is taken from lookups of every target, and checked.
    fn stored(&mut self, mutable: bool, t: &Id, item: Item) -> R {
        let kind = if mutable { "mutable" } else { "immutable" };
        let table = if mutable { &self.m.muts } else { &self.m.imm };
        let full = table.len() >= self.m.max_items;
        // what leaves a table with room is noticed by after_store as well, so large histories look here now and then only
        let look = full || self.sparse == 1 && table.len() < 1000 || self.stores % self.sparse == 0 && self.f != Facet::Counters;
        let gone: Vec<Id> = if look { table.keys().filter(|k| !self.has(mutable, k)).copied().collect() } else { vec![] };
        let there = self.has(mutable, t);
        let own = self.is(&[Facet::Eviction]);
        if self.is(&[Facet::Immutable, Facet::Mutable, Facet::Eviction]) {
            ensure!(full || gone.is_empty(), "storing {} item {} loses {:?} though only {} of {} are stored", kind, hx(t), gone.iter().map(hx).collect::<Vec<_>>(), table.len(), self.m.max_items);
            ensure!(there || self.m.max_items == 0, "{} item {} is not there after it was stored", kind, hx(t));
        }
        if own {
            let now = table.len() - gone.len() + there as usize;
            ensure!(now <= self.m.max_items, "{} {} items are stored though the limit is {}", now, kind, self.m.max_items);
            if full && self.m.max_items > 0 {
                ensure!(gone.len() == 1, "storing {} item {} into a full table of {} evicts {} items: {:?}", kind, hx(t), table.len(), gone.len(), gone.iter().map(hx).collect::<Vec<_>>());
                let imp: BTreeMap<&Id, isize> = table.iter().map(|(k, i)| (k, self.m.importance(k, i))).collect();
                let least = imp.values().min().unwrap();
                ensure!(imp[&gone[0]] == *least, "{} item {} of importance {} is evicted although {:?} has {}", kind, hx(&gone[0]), imp[&gone[0]], imp.iter().filter(|(_, v)| *v == least).map(|(k, _)| hx(k)).collect::<Vec<_>>(), least);
            }
        }
        self.evictions += gone.len() as u32;
        let table = if mutable { &mut self.m.muts } else { &mut self.m.imm };
        for g in &gone {
            table.remove(g);
        }
        if there {
            table.insert(*t, item);
        }
        Ok(())
    }
    /// After any store: everything the model holds is there, nothing else is, and the other table is unchanged.
    fn after_store(&mut self, mutable: bool, t: &Id, new: bool) -> R {
        if !self.is(&[Facet::Immutable, Facet::Mutable, Facet::Eviction]) {
            return Ok(());
        }
        self.stores += 1;
        let all = self.stores % self.sparse == 0;
        for m in [mutable, !mutable] {
            let table = if m { &self.m.muts } else { &self.m.imm };
            for k in if all { self.m.targets.range::<Id, _>(..) } else { self.m.targets.range(*t..=*t) } {
                let (want, got) = (table.contains_key(k), self.has(m, k));
                ensure!(
                    want == got,
                    "after storing {} {} item {}, {} item {} is {}",
                    if new { "new" } else { "present" },
                    if mutable { "mutable" } else { "immutable" },
                    hx(t),
                    if m { "mutable" } else { "immutable" },
                    hx(k),
                    if got { "there again" } else { "gone" }
                );
            }
        }
        Ok(())
    }

    fn get_imm(&self, t: &Id, reply: &Val) -> R {
        let mut v = to_value(reply);
        let got = self.s.get_immutable_item(&h(t), &mut v);
        if !self.is(&[Facet::Immutable]) {
            return Ok(());
        }
        let want = self.m.imm.get(t);
        ensure_eq!(got, want.is_some(), "lookup of immutable item {}", hx(t));
        let mut r = reply.clone();
        if let (Some(i), Val::Dict(d)) = (want, &mut r) {
            d.insert("v".into(), model::decode(&i.value).expect("canonical item"));
        }
        let v = of_value(&v);
        ensure!(v == r, "lookup of immutable item {} turns {} into {} instead of {}", hx(t), brief(reply), brief(&v), brief(&r));
        Ok(())
    }
    fn get_mut(&self, t: &Id, seq: i64, force: bool, reply: &Val) -> R {
        let mut v = to_value(reply);
        let got = self.s.get_mutable_item(&h(t), seq, force, &mut v);
        if !self.is(&[Facet::Mutable]) {
            return Ok(());
        }
        let want = self.m.muts.get(t);
        ensure_eq!(got, want.is_some(), "lookup of mutable item {}", hx(t));
        let mut r = reply.clone();
        if let (Some(i), Val::Dict(d)) = (want, &mut r) {
            d.insert("seq".into(), Val::Int(i.seq));
            if force || 0 <= seq && seq < i.seq {
                d.insert("v".into(), model::decode(&i.value).expect("canonical item"));
                d.insert("sig".into(), Val::Bytes(sig_bytes(i.sig)));
                d.insert("k".into(), Val::Bytes(key_bytes(i.key)));
            }
        }
        let v = of_value(&v);
        ensure!(v == r, "lookup of mutable item {} (seq {}, force {}) turns {} into {} instead of {}", hx(t), seq, force, brief(reply), brief(&v), brief(&r));
        Ok(())
    }

    fn lookup(&mut self, t: &Id, no_seed: bool, scrape: bool, from: &SocketAddr, reply: &Val) -> R {
        let mut v = to_value(reply);
        let got = self.s.get_peers(&h(t), no_seed, scrape, from, &mut v);
        let v = of_value(&v);
        let fam = family(from);
        let e = match self.m.torrents.get(t) {
            None => {
                if self.is(&[Facet::Peers, Facet::Scrape, Facet::Capacity]) {
                    ensure!(v == *reply, "looking up the unknown torrent {} turns the reply {} into {}", hx(t), brief(reply), brief(&v));
                }
                if self.is(&[Facet::Capacity]) {
                    let full = got.map_err(|e| format!("looking up the unknown torrent {} fails: {}", hx(t), e))?;
                    ensure_eq!(full, self.m.torrents.len() >= self.m.max_torrents, "pointless flag for the unknown torrent {} with {} of {} torrents", hx(t), self.m.torrents.len(), self.m.max_torrents);
                    self.full += full as u32;
                }
                return Ok(());
            }
            Some(e) => e,
        };
        let broken = !matches!(reply, Val::Dict(_)) || !scrape && matches!(reply, Val::Dict(d) if !matches!(d.get("values"), None | Some(Val::List(_))));
        if broken {
            if self.is(&[Facet::Peers]) {
                ensure!(got.is_err(), "a lookup with the unusable reply {} succeeds", brief(reply));
            }
            return Ok(());
        }
        let what = format!("get_peers {} from {}{}{}", hx(t), from, if no_seed { " without seeds" } else { "" }, if scrape { ", scrape" } else { "" });
        let full = got.map_err(|e| format!("{} fails: {}", what, e))?;
        let (r, d) = match (reply, &v) {
            (Val::Dict(r), Val::Dict(d)) => (r, d),
            _ => return Err(format!("{} turns the reply into {}", what, brief(&v))),
        };
        let peers = &e.peers[fam];
        // entries other than those a lookup is to set stay
        let mine = ["n", "values", "BFpe", "BFsd"];
        if self.is(&[Facet::Peers, Facet::Scrape, Facet::Capacity]) {
            for (k, x) in r {
                ensure!(mine.contains(&&k[..]) || d.get(k) == Some(x), "{} changes the reply's entry {:?}", what, k);
            }
            for k in d.keys() {
                ensure!(mine.contains(&&k[..]) || r.contains_key(k), "{} adds the entry {:?} to the reply", what, k);
            }
            let name = if e.name.is_empty() { r.get("n").cloned() } else { Some(Val::str(&e.name)) };
            ensure!(d.get("n") == name.as_ref(), "{} gives the name {:?} instead of {:?}", what, d.get("n").map(brief), name.as_ref().map(brief));
        }
        if scrape {
            if self.is(&[Facet::Scrape]) {
                let mut f = [Bloom::new(256), Bloom::new(256)];
                for ((ip, _), seed) in peers {
                    f[*seed as usize].set(&model::sha1(&model::ip_octets(ip)));
                }
                for (k, f) in [("BFpe", &f[0]), ("BFsd", &f[1])] {
                    match d.get(k) {
                        Some(Val::Bytes(b)) if *b == f.bytes() => {}
                        o => return Err(format!("{}: {} is {} instead of the filter {} of {} peers", what, k, o.map_or("absent".into(), brief), model::hex(&f.bytes()), peers.len())),
                    }
                }
                ensure!(d.get("values") == r.get("values"), "{} changes the list of peers", what);
            }
        } else if self.is(&[Facet::Peers, Facet::Capacity]) {
            for k in ["BFpe", "BFsd"] {
                ensure!(d.get(k) == r.get(k), "{} changes {}", what, k);
            }
            let old: &[Val] = match r.get("values") {
                Some(Val::List(l)) => l,
                _ => &[],
            };
            let list: &[Val] = match d.get("values") {
                Some(Val::List(l)) => l,
                o => return Err(format!("{}: the reply's values are {:?}", what, o.map(brief))),
            };
            ensure!(list.starts_with(old), "{} changes values already in the reply", what);
            let added = &list[old.len()..];
            let eligible: BTreeSet<Vec<u8>> = peers.iter().filter(|(_, seed)| !(no_seed && **seed)).map(|((ip, port), _)| compact(ip, *port)).collect();
            let mut seen = BTreeSet::new();
            for x in added {
                match x {
                    Val::Bytes(b) if eligible.contains(b) => ensure!(seen.insert(b.clone()), "{} lists {} twice", what, model::hex(b)),
                    x => return Err(format!("{} lists {}, which is not among the eligible peers {:?}", what, brief(x), eligible.iter().map(|b| model::hex(b)).collect::<Vec<_>>())),
                }
            }
            let limit = if fam == 1 { self.m.reply / 4 } else { self.m.reply };
            let want = limit.min(eligible.len());
            ensure!(added.len() == want, "{} lists {} peers instead of {} ({} eligible, reply limit {})", what, added.len(), want, eligible.len(), self.m.reply);
        }
        if self.is(&[Facet::Capacity]) {
            let want = peers.len() >= self.m.max_peers && !peers.contains_key(&(from.ip(), from.port()));
            ensure_eq!(full, want, "pointless flag of {} with {} of {} peers stored", what, peers.len(), self.m.max_peers);
            self.full += full as u32;
        }
        Ok(())
    }

    /// Looks at everything that can be looked at.
    fn survey(&mut self) -> R {
        let v4: SocketAddr = ([9, 9, 9, 9], 9).into();
        let v6: SocketAddr = ([9u16, 9, 9, 9, 9, 9, 9, 9], 9).into();
        match self.f {
            Facet::Peers | Facet::Capacity | Facet::Scrape => {
                for t in self.m.hashes.clone() {
                    for from in [v4, v6] {
                        self.lookup(&t, false, self.f == Facet::Scrape, &from, &Val::Dict(BTreeMap::new()))?;
                        if self.f != Facet::Scrape {
                            self.lookup(&t, true, false, &from, &Val::Dict(BTreeMap::new()))?;
                        }
                    }
                }
            }
            Facet::Immutable | Facet::Mutable | Facet::Eviction => {
                for t in &self.m.targets {
                    self.get_imm(t, &Val::Dict(BTreeMap::new()))?;
                    self.get_mut(t, 0, true, &Val::Dict(BTreeMap::new()))?;
                }
            }
            Facet::Counters => {}
        }
        Ok(())
    }
    /// Compares the counters with what lookups find.
    fn counters(&mut self) -> R {
        let v4: SocketAddr = ([9, 9, 9, 9], 9).into();
        let v6: SocketAddr = ([9u16, 9, 9, 9, 9, 9, 9, 9], 9).into();
        let (mut torrents, mut peers) = (0, 0);
        for t in &self.m.hashes {
            let mut known = false;
            for from in [v4, v6] {
                let mut v = Value::with_dict([("values".to_string(), Value::with_list(vec![]))].into_iter().collect());
                self.s.get_peers(&h(t), false, false, &from, &mut v).map_err(|e| e.to_string())?;
                if let Some(Val::List(l)) = entry(&of_value(&v), "values") {
                    peers += l.len() as i64;
                }
                let mut v = Value::with_dict(BTreeMap::new());
                self.s.get_peers(&h(t), false, true, &from, &mut v).map_err(|e| e.to_string())?;
                known |= entry(&of_value(&v), "BFpe").is_some();
            }
            torrents += known as i64;
        }
        let imm = self.m.targets.iter().filter(|t| self.has(false, t)).count() as i64;
        let muts = self.m.targets.iter().filter(|t| self.has(true, t)).count() as i64;
        let mut c = self.s.counters();
        let (a, b, x, y) = verif::counter_fields(&c);
        let got = (a as i64, b as i64, x as i64, y as i64);
        ensure!(got == (torrents, peers, imm, muts), "the counters (torrents, peers, immutable, mutable) are {:?} but {:?} are stored", got, (torrents, peers, imm, muts));
        c.reset();
        let z = verif::counter_fields(&c);
        ensure!(z == (0, 0, 0, 0), "reset counters are {:?}", z);
        ensure!(verif::counter_fields(&self.s.counters()) == (a, b, x, y), "resetting a copy changes the counters");
        Ok(())
    }
}

// ---- generators -----------------------------------------------------------------------------------------------------

struct World {
    hashes: Vec<Id>,
    targets: Vec<Id>,
    ids: Vec<Id>,
    /// how many different endpoints announces come from
    spread: usize,
    /// the highest sequence number put so far
    top: BTreeMap<Id, i64>,
    /// whether time passes between the steps
    waits: bool,
}
/// A while, in milliseconds.
fn while_ms(s: &mut Src) -> u64 {
    match s.weighted(&[4, 1, 1]) {
        0 => *s.pick(&[1, 60, 1001, 5_000, 10_001, 61_000, 300_001, 900_001, 1_799_000, 1_800_001, 3_600_001, 7_200_001, 21_600_001, 86_400_001, 604_800_001, 3_000_000_000]),
        1 => (s.dict_u64() % 100_000_000) * 1000 + 1,
        _ => s.dict_u64() % 100_000_000_000,
    }
}
const PORTS: [u16; 8] = [6881, 0, 1, 6882, 256, 65535, 80, 51413];
fn host(k: usize, v6: bool) -> IpAddr {
    const V4: [[u8; 4]; 6] = [[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [192, 168, 1, 1], [10, 0, 0, 255], [224, 0, 0, 1]];
    const V6: [[u16; 8]; 6] = [[0; 8], [0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0xffff, 0x0a00, 0], [0xffff; 8], [0xfe80, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0, 0x0a00, 0]];
    match (k % 4, v6) {
        (3, false) if k / 4 < V4.len() => V4[k / 4].into(),
        (3, true) if k / 4 < V6.len() => V6[k / 4].into(),
        (_, false) => [10, 0, (k / 256) as u8, k as u8].into(),
        _ => [0x2001u16, 0, 0, 0, 0, 0, (k / 256) as u16, (k % 256) as u16].into(),
    }
}
fn endpoint(s: &mut Src, w: &World) -> SocketAddr {
    let k = s.usize(w.spread);
    // many hosts of few ports, or the other way around
    let (h, port) = if w.spread % 2 == 0 { (k / 4, PORTS[k % 4]) } else { (k / 8, PORTS[k % 8]) };
    match s.weighted(&[6, 5, 1]) {
        0 => SocketAddr::new(host(h, false), port),
        1 => match host(h, true) {
            IpAddr::V6(ip) if s.chance(1, 6) => SocketAddr::V6(SocketAddrV6::new(ip, port, s.usize(3) as u32, s.usize(3) as u32)),
            ip => SocketAddr::new(ip, port),
        },
        _ => SocketAddr::new(s.ip(), s.port()),
    }
}
fn announcer(s: &mut Src) -> IpAddr {
    match s.weighted(&[6, 2, 1]) {
        0 => [10, 1, 0, s.byte() % 64].into(),
        1 => [0x2001u16, 1, 0, 0, 0, 0, 0, s.byte() as u16 % 64].into(),
        _ => s.ip(),
    }
}
/// The `k`th of many distinct addresses alike in some way.
fn crowd(form: usize, a: u8, k: usize) -> IpAddr {
    let v4 = |k: usize| [10, 2 + (k / 256) as u8, a, k as u8];
    let v6 = |top: u128, k: usize| IpAddr::from((top | 0x3 << 112 | (a as u128) << 32 | k as u128).to_be_bytes());
    match form {
        // a network apart, or hosts of one network
        0 => IpAddr::from(((0x2002u128 << 112) | (k as u128) << 64 | (a as u128)).to_be_bytes()),
        1 => v6(0x2001 << 112, k),
        // an address of either family for the same host
        2 if k % 2 == 1 => std::net::Ipv4Addr::from(v4(k / 2)).to_ipv6_mapped().into(),
        2 => v4(k / 2).into(),
        3 if k % 2 == 1 => std::net::Ipv4Addr::from(v4(k / 2)).to_ipv6_compatible().into(),
        3 => v4(k / 2).into(),
        _ => v4(k).into(),
    }
}
fn item(s: &mut Src) -> Vec<u8> {
    let depth = s.usize(3);
    let mut v = model::val(s, depth).to_vec();
    if v.len() > 1000 && !s.chance(1, 8) {
        v = b"4:long".to_vec();
    }
    if s.chance(1, 20) {
        // one of several that differ in one byte, of a length that is a limit of something
        let n = *s.pick(&[1000usize, 1000, 996, 999, 1001, 255, 256, 64, 32, 20]);
        let head = if n > 100 { 4 } else { 3 };
        let mut b = vec![b'x'; n - head];
        let at = *s.pick(&[0, 1, n - head - 1, n - head - 2, n / 2]);
        b[at] = *s.pick(&[b'x', b'y', 0]);
        return Val::Bytes(b).to_vec();
    }
    if s.chance(1, 60) {
        let n = s.size(70_000);
        v = Val::Bytes((0..n).map(|k| (k * 3 + k / 250) as u8).collect()).to_vec();
    }
    v
}
fn reply(s: &mut Src) -> Val {
    let mut d = BTreeMap::new();
    if s.chance(1, 3) {
        d.insert("values".to_string(), Val::List(s.list(3, 1, |s| Val::Bytes(s.bytes(6)))));
    }
    if s.chance(1, 6) {
        for k in ["id", "n", "v", "seq", "sig", "k", "token", "BFpe", "BFsd"] {
            if s.chance(1, 3) {
                let x = match s.usize(4) {
                    0 | 1 => Val::Int(-3),
                    2 if k.starts_with('B') => Val::Bytes(if s.bool() { vec![s.byte(); 256] } else { s.bytes(256) }),
                    2 if k == "sig" => Val::Bytes(s.bytes(64)),
                    2 if k == "k" => Val::Bytes(s.bytes(32)),
                    _ => Val::str("old"),
                };
                d.insert(k.to_string(), x);
            }
        }
    }
    Val::Dict(d)
}
fn seq(s: &mut Src, top: Option<&i64>) -> i64 {
    match (s.weighted(&[16, 2, 1, 16]), top) {
        (0, _) | (3.., None) => s.usize(8) as i64 - 2,
        (1, _) => *s.pick(&[i64::MIN, -1, i64::MIN + 1, i64::MAX - 1, i64::MAX]),
        (2, _) => s.int(),
        (_, Some(t)) => t.saturating_add(s.usize(4) as i64 - 1),
    }
}
fn near(s: &mut Src, base: &Id, e: usize) -> Id {
    let mut b = *base;
    b[19 - e / 8] ^= 1 << (e % 8);
    for k in 0..e.min(16) {
        if s.bool() {
            b[19 - k / 8] ^= 1 << (k % 8);
        }
    }
    b
}
fn world(s: &mut Src, n_hashes: usize, n_targets: usize, spread: usize) -> World {
    let most = match s.usize(40) {
        0 => 400,
        1..=3 => 70,
        4..=9 => 16,
        _ => 3,
    };
    let ids: Vec<Id> = (0..1 + s.usize(most)).map(|_| s.id()).collect();
    let mut targets: Vec<Id> = vec![];
    let close = s.chance(2, 3);
    for _ in 0..n_targets {
        let t = if close {
            let base = *s.pick(&ids);
            let e = if s.chance(1, 4) { s.usize(160) } else { s.usize(14) };
            if s.chance(1, 16) {
                base
            } else {
                near(s, &base, e)
            }
        } else {
            s.id()
        };
        targets.push(t);
    }
    let hashes: Vec<Id> = (0..n_hashes).map(|_| s.id()).collect();
    if s.chance(1, 8) {
        // an info-hash that is a target as well
        let k = s.usize(targets.len());
        targets[k] = hashes[0];
    }
    let waits = s.chance(1, 4);
    World { hashes, targets, ids, spread, top: BTreeMap::new(), waits }
}
fn name(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => String::new(),
        1 => s.pick(&["a", "b", "name", "x y"]).to_string(),
        2 => {
            let c = s.char();
            std::iter::repeat(c).take(95 + s.usize(10)).collect()
        }
        _ => s.text(250),
    }
}
fn broken_reply(s: &mut Src) -> Val {
    if s.bool() {
        model::val(s, 1)
    } else {
        Val::Dict([("values".to_string(), model::val(s, 0))].into_iter().collect())
    }
}
/// An item, now and then almost the one put to the target before.
fn item_like(s: &mut Src, t: &Id, before: &[Op]) -> Vec<u8> {
    if s.chance(1, 4) {
        let last = before.iter().rev().take(40).find_map(|o| match o {
            Op::PutImm { t: u, item, .. } | Op::PutMut { t: u, item, .. } if u == t => Some(item),
            _ => None,
        });
        if let Some(mut v) = last.and_then(|i| model::decode(i)) {
            alter(s, &mut v);
            return v.to_vec();
        }
    }
    item(s)
}
/// A small change somewhere, mostly keeping the length.
fn alter(s: &mut Src, v: &mut Val) {
    match v {
        Val::Int(n) => *n ^= 1,
        Val::Bytes(b) if b.is_empty() => b.push(b'a'),
        Val::Bytes(b) => {
            let letters: Vec<usize> = (0..b.len()).filter(|&k| b[k].is_ascii_alphabetic()).collect();
            match s.usize(4) {
                0 | 1 if !letters.is_empty() => letters.iter().for_each(|&k| b[k] ^= 0x20),
                0 => b[0] ^= 1,
                1 => *b.last_mut().unwrap() ^= 1,
                2 => b.reverse(),
                _ => {
                    b.pop();
                }
            }
        }
        Val::List(l) => match l.last_mut() {
            Some(x) if s.bool() => alter(s, x),
            Some(_) => l.reverse(),
            None => l.push(Val::List(vec![])),
        },
        Val::Dict(d) => match d.values_mut().next_back() {
            Some(x) => alter(s, x),
            None => {
                d.insert(String::new(), Val::Int(0));
            }
        },
    }
}
/// One step; `w` weighs announce, lookup, immutable put and get, mutable put and get, node ids, bursts of stores.
fn op(s: &mut Src, wd: &mut World, w: &[u32; 8], scrape: u64, out: &mut Vec<Op>) {
    if wd.waits && s.chance(1, 6) {
        out.push(Op::Wait(while_ms(s)));
    }
    match s.weighted(w) {
        0 => out.push(Op::Announce { t: *s.pick(&wd.hashes), ep: endpoint(s, wd), name: name(s), seed: s.bool() }),
        1 => {
            let t = if s.chance(1, 10) { s.id() } else { *s.pick(&wd.hashes) };
            let mut reply = if s.chance(1, 40) { broken_reply(s) } else { reply(s) };
            if s.chance(1, 6) {
                // peers, perhaps the very ones stored, are in the reply already
                if let Val::Dict(d) = &mut reply {
                    if let Val::List(l) = d.entry("values".to_string()).or_insert(Val::List(vec![])) {
                        for _ in 0..s.usize(4) {
                            let e = endpoint(s, wd);
                            l.push(Val::Bytes(compact(&e.ip(), e.port())));
                        }
                    }
                }
            }
            out.push(Op::Peers { t, no_seed: s.bool(), scrape: s.chance(scrape, 4), from: endpoint(s, wd), reply })
        }
        2 => {
            let t = *s.pick(&wd.targets);
            let item = item_like(s, &t, out);
            out.push(Op::PutImm { t, item, ip: announcer(s) })
        }
        3 => out.push(Op::GetImm { t: *s.pick(&wd.targets), reply: reply(s) }),
        4 => {
            let t = *s.pick(&wd.targets);
            let seq = seq(s, wd.top.get(&t));
            let top = wd.top.entry(t).or_insert(seq);
            *top = seq.max(*top);
            let item = item_like(s, &t, out);
            out.push(Op::PutMut { t, item, sig: s.byte(), seq, key: s.byte(), ip: announcer(s) })
        }
        5 => {
            let t = *s.pick(&wd.targets);
            if s.chance(1, 4) {
                out.push(Op::GetSeq { t, seq: s.int() })
            } else {
                out.push(Op::GetMut { t, seq: seq(s, wd.top.get(&t)), force: s.chance(1, 3), reply: reply(s) })
            }
        }
        6 => {
            let v = if s.bool() { wd.ids[..1 + s.usize(wd.ids.len())].to_vec() } else { (0..1 + s.usize(3)).map(|_| s.id()).collect() };
            out.push(Op::Ids(v))
        }
        _ => {
            // one target announced from many addresses
            let most = if s.chance(1, 8) { 900 } else { 40 };
            let (t, m, from, n) = (*s.pick(&wd.targets), s.bool(), s.byte(), s.usize(most));
            let it = item(s);
            let form = s.usize(8);
            for k in 0..n {
                let ip = crowd(form, from % 4, k);
                out.push(if m { Op::PutMut { t, item: it.clone(), sig: 1, seq: 1, key: 1, ip } } else { Op::PutImm { t, item: it.clone(), ip } });
            }
        }
    }
}
fn small(s: &mut Src, huge: bool) -> usize {
    match s.weighted(&[6, 3, 2]) {
        0 => s.usize(7),
        1 => s.usize(30),
        _ if s.chance(1, 4) => s.dict_u64() as usize % 400,
        _ if huge => *s.pick(&[500, usize::MAX, 2000, 1 << 40]),
        _ => 3 + s.usize(4),
    }
}

/// Settings and a history, in a world of its own unless one is given.
fn plan(s: &mut Src, f: Facet, given: Option<World>) -> (DhtSettings, World, Vec<Op>) {
    let mut set = DhtSettings::default();
    let (w, scrape): ([u32; 8], u64) = match f {
        Facet::Peers => ([12, 8, 0, 0, 0, 0, 0, 0], 1),
        Facet::Capacity => ([12, 8, 0, 0, 0, 0, 0, 0], 1),
        Facet::Scrape => ([12, 6, 1, 0, 0, 0, 0, 0], 3),
        Facet::Immutable => ([6, 3, 24, 24, 9, 3, 3, 1], 1),
        Facet::Mutable => ([6, 3, 9, 3, 24, 24, 3, 1], 1),
        Facet::Eviction => ([0, 0, 6, 0, 6, 0, 1, 3], 0),
        Facet::Counters => ([6, 0, 4, 0, 4, 0, 1, 1], 0),
    };
    set.max_torrents = match f {
        Facet::Capacity | Facet::Counters => small(s, true),
        _ if s.chance(1, 8) => small(s, true),
        _ => 2000,
    };
    set.max_peers = match f {
        Facet::Capacity | Facet::Counters => small(s, true),
        _ if s.chance(1, 8) => small(s, true),
        _ => 500,
    };
    set.max_dht_items = match f {
        Facet::Eviction | Facet::Counters => small(s, false),
        _ if s.chance(1, 3) => small(s, true),
        _ => 700,
    };
    set.max_peers_reply = match f {
        Facet::Peers => small(s, true),
        Facet::Capacity if s.chance(1, 4) => small(s, true),
        Facet::Scrape => small(s, true),
        _ => usize::MAX,
    };
    let spread = match s.usize(4) {
        0 => 3,
        1 => 24,
        2 => 200,
        _ => 2000,
    };
    let nh = 1 + s.usize(if f == Facet::Capacity || f == Facet::Counters { 8 } else { 3 });
    let nt = 1 + s.usize(if f == Facet::Eviction { 12 } else { 8 });
    let mut wd = given.unwrap_or_else(|| world(s, nh, nt, spread));
    let avg = *s.pick(&[6, 20, 60]);
    let mut ops = vec![];
    s.list(250, avg, |s| op(s, &mut wd, &w, scrape, &mut ops));
    if f == Facet::Peers && s.chance(1, 3) {
        // a large population
        let n = s.usize(120);
        let t = wd.hashes[0];
        for k in 0..n {
            ops.push(Op::Announce { t, ep: SocketAddr::new(if k % 3 == 0 { IpAddr::from([0x2001u16, 0, 0, 0, 0, 0, 9, k as u16]) } else { IpAddr::from([10, 9, 0, k as u8]) }, 1000), name: String::new(), seed: k % 5 == 0 });
        }
        for _ in 0..6 {
            ops.push(Op::Peers { t, no_seed: s.bool(), scrape: false, from: endpoint(s, &wd), reply: reply(s) });
        }
    }
    (set, wd, ops)
}
fn plan_text(set: &DhtSettings, wd: &World, ops: &[Op]) -> String {
    format!(
        "max_torrents {} max_peers {} max_dht_items {} max_peers_reply {}; node ids {:?}; {}",
        set.max_torrents as isize,
        set.max_peers as isize,
        set.max_dht_items as isize,
        set.max_peers_reply as isize,
        wd.ids.iter().map(|i| model::hex(i)).collect::<Vec<_>>(),
        ops.iter().map(op_text).collect::<Vec<_>>().join("; ")
    )
}
fn history(c: &mut Ctx, f: Facet) -> R {
    if c.s.chance(1, 24) {
        return together(c, &[f, f]);
    }
    let (set, wd, ops) = plan(&mut c.s, f, None);
    c.show(|| plan_text(&set, &wd, &ops));
    for o in &ops {
        c.key(&op_text(o));
    }
    c.key(&(set.max_torrents, set.max_peers, set.max_dht_items, set.max_peers_reply));
    execute(c, f, &set, &wd.ids, &ops)
}
/// Several storages in one world, their histories interleaved, some of them dropped and begun anew, or each on its own thread.
fn together(c: &mut Ctx, facets: &[Facet]) -> R {
    let mut plans = vec![];
    let mut last: Option<World> = None;
    for &f in facets {
        let (set, wd, ops) = plan(&mut c.s, f, last.take());
        plans.push((f, set, wd.ids.clone(), ops));
        last = Some(wd);
    }
    let wd = last.unwrap();
    // the same settings for all, perhaps
    let shared = c.s.chance(1, 3);
    let plans: Vec<(Facet, &DhtSettings, &Vec<Id>, &Vec<Op>)> = plans.iter().map(|p| (p.0, if shared { &plans[0].1 } else { &p.1 }, &p.2, &p.3)).collect();
    c.label_if(shared, "shared settings");
    let threads = c.s.chance(1, 40);
    c.label("several storages");
    c.label_if(threads, "a thread for each");
    c.nontrivial(plans.iter().all(|p| p.3.len() > 1));
    for (k, p) in plans.iter().enumerate() {
        c.show(|| format!("storage {} ({:?}): {}", k, p.0, plan_text(p.1, &wd, p.3)));
        p.3.iter().for_each(|o| c.key(&op_text(o)));
    }
    let name = |k: usize, i: usize, o: &Op, e: String| format!("storage {} of {}, step {} ({}): {}", k, facets.len(), i, op_text(o), e);
    if threads {
        return std::thread::scope(|s| {
            let all: Vec<_> = plans
                .iter()
                .enumerate()
                .map(|(k, (f, set, ids, ops))| {
                    s.spawn(move || {
                        engine::run::guarded(|| {
                            let mut r = Run::new(*f, set, ops);
                            r.step(&Op::Ids(ids.to_vec()))?;
                            ops.iter().enumerate().try_for_each(|(i, o)| r.step(o).map_err(|e| name(k, i, o, e)))?;
                            r.survey()
                        })
                    })
                })
                .collect();
            all.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect::<R>()
        });
    }
    let mut runs = vec![];
    for (f, set, ids, ops) in &plans {
        let mut r = Run::new(*f, set, ops);
        r.step(&Op::Ids(ids.to_vec()))?;
        runs.push((r, 0));
    }
    let mut turn = 0;
    loop {
        let left: Vec<usize> = (0..runs.len()).filter(|&k| runs[k].1 < plans[k].3.len()).collect();
        if left.is_empty() {
            break;
        }
        // a few steps of one, or one of each in turn
        turn += 1;
        let k = if c.s.bool() { left[turn % left.len()] } else { *c.s.pick(&left) };
        let (f, set, ids, ops) = &plans[k];
        for _ in 0..1 + c.s.usize(3) {
            let i = runs[k].1;
            if i < ops.len() {
                runs[k].0.step(&ops[i]).map_err(|e| name(k, i, &ops[i], e))?;
                runs[k].1 += 1;
            }
        }
        if c.s.chance(1, 40) {
            c.label("dropped and begun anew");
            let mut r = Run::new(*f, set, ops);
            r.step(&Op::Ids(ids.to_vec()))?;
            r.m.hashes.extend(&wd.hashes);
            r.m.targets.extend(&wd.targets);
            r.survey().map_err(|e| format!("storage {}, begun anew: {}", k, e))?;
            runs[k].0 = r;
        }
        if c.s.chance(1, 16) {
            let k = c.s.usize(runs.len());
            runs[k].0.m.hashes.extend(&wd.hashes);
            runs[k].0.m.targets.extend(&wd.targets);
            runs[k].0.survey().map_err(|e| format!("storage {} after a step of another: {}", k, e))?;
            if plans[k].0 == Facet::Counters {
                // whose lookups list every peer
                runs[k].0.counters().map_err(|e| format!("storage {} after a step of another: {}", k, e))?;
            }
        }
    }
    for (k, (r, _)) in runs.iter_mut().enumerate() {
        r.m.hashes.extend(&wd.hashes);
        r.m.targets.extend(&wd.targets);
        r.survey().map_err(|e| format!("storage {} at the end: {}", k, e))?;
        if plans[k].0 == Facet::Counters {
            r.counters().map_err(|e| format!("storage {} at the end: {}", k, e))?;
        }
    }
    Ok(())
}
fn ids_used(ops: &[Op]) -> usize {
    let mut v: Vec<&Id> = ops
        .iter()
        .filter_map(|o| match o {
            Op::PutImm { t, .. } | Op::PutMut { t, .. } => Some(t),
            _ => None,
        })
        .collect();
    v.sort();
    v.dedup();
    v.len()
}
fn execute(c: &mut Ctx, f: Facet, set: &DhtSettings, ids: &[Id], ops: &[Op]) -> R {
    let mut r = Run::new(f, set, ops);
    let every = 16.max(ops.len() / 12);
    r.step(&Op::Ids(ids.to_vec()))?;
    let mut relevant = 0;
    for (i, o) in ops.iter().enumerate() {
        let at = |e: String| format!("step {} ({}): {}", i, op_text(o), e);
        r.step(o).map_err(at)?;
        relevant += match (f, o) {
            (Facet::Peers, Op::Peers { t, scrape: false, .. }) => r.m.torrents.contains_key(t) as u32,
            (Facet::Capacity, Op::Announce { .. }) => 1,
            (Facet::Scrape, Op::Peers { t, scrape: true, .. }) => r.m.torrents.contains_key(t) as u32,
            (Facet::Immutable, Op::GetImm { .. }) | (Facet::Immutable, Op::PutImm { .. }) => 1,
            (Facet::Mutable, Op::GetMut { .. }) | (Facet::Mutable, Op::PutMut { .. }) => 1,
            (Facet::Counters, _) => 1,
            _ => 0,
        };
        if f == Facet::Counters && (ops.len() < 20 || i % 7 == 0 && ops.len() < 300 || i % every == every - 1) {
            r.counters().map_err(at)?;
        }
        if i % every == every - 1 {
            r.survey().map_err(at)?;
        }
    }
    r.survey().map_err(|e| format!("at the end: {}", e))?;
    if f == Facet::Counters {
        r.counters().map_err(|e| format!("at the end: {}", e))?;
    }
    c.label_if(r.evictions > 0, "evictions");
    c.label_if(r.evictions > 5, "over 5 evictions");
    c.label_if(r.drops > 0, "announces dropped at capacity");
    c.label_if(r.full > 0, "announcing reported pointless");
    c.label_if(r.m.torrents.len() > 1, "several torrents");
    c.label_if(r.m.torrents.values().any(|t| !t.peers[0].is_empty() && !t.peers[1].is_empty()), "both families");
    c.label_if(ops.len() > 50, "over 50 steps");
    c.label_if(ops.iter().any(|o| matches!(o, Op::Wait(_))), "time passes");
    c.nontrivial(if f == Facet::Eviction { r.evictions > 0 } else { relevant >= 2 });
    Ok(())
}

/// Large histories: populations and tables up to and beyond the default limits and the turning points of small counters.
/// Limits that are tried exactly, each with a few more arrivals than it allows.
fn exact_limits() -> Vec<usize> {
    model::sizes().iter().copied().filter(|&n| n <= 1100).collect()
}
fn exact(c: &mut Ctx, i: u64, f: Facet) -> R {
    let l = exact_limits();
    c.label("exact limit");
    scaled(c, i / l.len() as u64, f, Some(l[i as usize % l.len()]))
}
fn scale(c: &mut Ctx, i: u64, f: Facet) -> R {
    scaled(c, i, f, None)
}
fn scaled(c: &mut Ctx, i: u64, f: Facet, exactly: Option<usize>) -> R {
    let s = &mut c.s;
    let mut set = DhtSettings::default();
    let id = |k: usize| -> Id {
        let mut a = [0u8; 20];
        let mut x = (k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for b in a.iter_mut() {
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(0x1234_5678_9abc_def1);
            *b = (x >> 56) as u8;
        }
        a[19] = k as u8;
        a[18] = (k >> 8) as u8;
        a[17] = (k >> 16) as u8;
        a
    };
    let about = |s: &mut Src, n: usize| match s.usize(7) {
        _ if exactly.is_some() => exactly.unwrap(),
        6 => (s.dict_u64() as usize % (n + n / 8)).max(1),
        0 => usize::MAX,
        1 => n / 2 + s.usize(n),
        2 => (n + s.usize(5)).saturating_sub(2),
        3 => *s.pick(&[127, 128, 255, 256, 257, 511, 512, 513, 1000]),
        _ => 0, // the default
    };
    let or = |v: usize, d: usize| if v == 0 { d } else { v };
    let n = match s.usize(6) {
        0 => 200 + s.usize(130),
        1 => 500 + s.usize(60),
        2 => 1000 + s.usize(60),
        3 if f == Facet::Counters || !matches!(f, Facet::Immutable | Facet::Mutable | Facet::Eviction) => 2000 + s.usize(1500),
        _ => 690 + s.usize(60),
    };
    let n = exactly.map_or(n, |l| l + 1 + s.usize(12));
    // the order in which things arrive
    let mut order: Vec<usize> = (0..n).collect();
    match s.usize(4) {
        0 => order.reverse(),
        1 => {}
        _ => {
            let mut r = engine::src::Rng::new(s.u64());
            for k in (1..n).rev() {
                order.swap(k, (r.next() % (k as u64 + 1)) as usize);
            }
        }
    }
    let same_ip = s.chance(1, 4);
    let ep = |k: usize, v6: bool| -> SocketAddr {
        let (h, port) = if same_ip { (k / 5, 6881 + (k % 5) as u16) } else { (k, 6881) };
        if v6 {
            SocketAddr::new([0x2001u16, 0, 0, 0, 0, 0, (h >> 16) as u16, h as u16].into(), port)
        } else {
            SocketAddr::new([10, (h >> 16) as u8, (h >> 8) as u8, h as u8].into(), port)
        }
    };
    let empty = Val::Dict(BTreeMap::new());
    let mut ops = vec![];
    let mut ids = vec![s.id()];
    let waits = s.chance(1, 3).then(|| 1 + s.usize(n));
    let what;
    let items = match f {
        Facet::Peers | Facet::Scrape => false,
        Facet::Capacity => false,
        Facet::Counters => i % 2 == 1,
        _ => true,
    };
    if !items && (i % 4 < 3 || f == Facet::Scrape) && !(f == Facet::Counters && i % 4 == 0) {
        what = "one large population";
        set.max_peers = or(about(s, n), 500);
        set.max_peers_reply = if f == Facet::Counters || exactly.is_some() && s.bool() { usize::MAX } else { or(about(s, n), 100) };
        let mix = if exactly.is_some() { i as usize % 3 } else { s.usize(3) }; // one family, the other, both
        let seeds = 1 + s.usize(7);
        let t = id(0);
        for (j, &k) in order.iter().enumerate() {
            let v6 = mix == 1 || mix == 2 && k % 3 == 0;
            ops.push(Op::Announce { t, ep: ep(k, v6), name: String::new(), seed: k % seeds == 0 });
            if s.chance(1, 50) || j + 1 == n {
                for v6 in [false, true] {
                    let k = s.usize(n + n / 4);
                    ops.push(Op::Peers { t, no_seed: s.bool(), scrape: f == Facet::Scrape, from: ep(k, v6), reply: empty.clone() });
                }
            }
            if s.chance(1, 20) {
                // again, perhaps as the other kind
                let k = order[s.usize(j + 1)];
                let v6 = mix == 1 || mix == 2 && k % 3 == 0;
                ops.push(Op::Announce { t, ep: ep(k, v6), name: String::new(), seed: s.bool() });
            }
        }
        for _ in 0..8 {
            let (k, v6) = (s.usize(n + n / 4), s.bool());
            ops.push(Op::Peers { t, no_seed: s.bool(), scrape: s.chance(if f == Facet::Scrape { 7 } else { 1 }, 8), from: ep(k, v6), reply: empty.clone() });
        }
    } else if !items {
        what = "many torrents";
        set.max_torrents = or(about(s, n), 2000);
        if f == Facet::Counters {
            set.max_peers_reply = usize::MAX;
        }
        for &k in &order {
            let v6 = k % 3 == 0;
            ops.push(Op::Announce { t: id(k), ep: ep(k, v6), name: if k % 4 == 0 { format!("name {}", k) } else { String::new() }, seed: k % 2 == 0 });
            if s.chance(1, 12) {
                let t = id(s.usize(n + n / 4));
                ops.push(Op::Peers { t, no_seed: false, scrape: s.bool(), from: ep(1, s.bool()), reply: empty.clone() });
            }
            if s.chance(1, 12) {
                ops.push(Op::Announce { t: id(s.usize(n)), ep: ep(s.usize(9), s.bool()), name: String::new(), seed: s.bool() });
            }
        }
    } else {
        what = "large item tables";
        set.max_dht_items = or(about(s, n), 700);
        if f == Facet::Counters {
            set.max_peers_reply = usize::MAX;
        }
        let kind = if exactly.is_some() { i as usize % 2 } else { s.usize(3) }; // immutable, mutable, both
        let more = match s.usize(8) {
            0 => s.usize(40),
            1 if n < 3000 => s.usize(600),
            _ => s.usize(3),
        };
        for _ in 0..more {
            ids.push(s.id());
        }
        let close = s.bool();
        let base = *s.pick(&ids);
        let target = |k: usize| {
            let mut t = id(k);
            if close {
                t[..17].copy_from_slice(&base[..17]);
            }
            t
        };
        for &k in &order {
            let t = target(k);
            let m = kind == 1 || kind == 2 && k % 2 == 0;
            let ip: IpAddr = [10, 3, (k >> 8) as u8, k as u8].into();
            let item = Val::List(vec![Val::Int(k as i64), Val::Bytes(vec![k as u8; k % 40])]).to_vec();
            ops.push(if m { Op::PutMut { t, item, sig: k as u8, seq: 1, key: 1, ip } } else { Op::PutImm { t, item, ip } });
            if s.chance(1, 6) {
                let j = order[s.usize(n)];
                let (t, item) = (target(j), Val::Int(s.int()).to_vec());
                let m = kind == 1 || kind == 2 && j % 2 == 0;
                let ip = announcer(s);
                ops.push(if m { Op::PutMut { t, item, sig: 9, seq: s.usize(4) as i64, key: 2, ip } } else { Op::PutImm { t, item: Val::List(vec![Val::Int(j as i64), Val::Bytes(vec![j as u8; j % 40])]).to_vec(), ip } });
            }
            if s.chance(1, 10) {
                let t = target(s.usize(n + 9));
                ops.push(match s.usize(3) {
                    0 => Op::GetImm { t, reply: empty.clone() },
                    1 => Op::GetMut { t, seq: s.usize(3) as i64, force: s.bool(), reply: empty.clone() },
                    _ => Op::GetSeq { t, seq: -9 },
                });
            }
            if s.chance(1, 80) {
                let (t, from, m) = (target(s.usize(n)), s.usize(4), 5 + s.usize(40));
                let form = s.usize(8);
                for x in 0..m {
                    let ip = crowd(form, 4 + from as u8, x);
                    ops.push(if kind == 1 { Op::PutMut { t, item: b"i1e".to_vec(), sig: 1, seq: 1, key: 1, ip } } else { Op::PutImm { t, item: b"i1e".to_vec(), ip } });
                }
            }
        }
    }
    if let Some(every) = waits {
        ops = ops.into_iter().enumerate().flat_map(|(k, o)| [(k % every == every - 1).then(|| Op::Wait(1_800_001)), Some(o)]).flatten().collect();
    }
    let text = format!(
        "{}: {} arrivals (first {:?}), {} operations, max_torrents {} max_peers {} max_dht_items {} max_peers_reply {}",
        what,
        n,
        &order[..4],
        ops.len(),
        set.max_torrents as isize,
        set.max_peers as isize,
        set.max_dht_items as isize,
        set.max_peers_reply as isize
    );
    c.key(&text);
    c.label(what);
    c.show(|| text);
    execute(c, f, &set, &ids, &ops)
}
/// One population grown past 65536 peers and looked up with a reply limit near that.
fn huge_swarm(c: &mut Ctx, i: u64, f: Facet) -> R {
    let mut set = DhtSettings::default();
    let limit = [usize::MAX, 65_535, 65_536, 4 * 66_000][i as usize / 2 % 4];
    set.max_peers = if i % 2 == 0 { usize::MAX } else { 65_536 };
    set.max_peers_reply = limit;
    let v6 = i % 4 > 1;
    let n = 66_000;
    let ep = |k: usize| -> SocketAddr {
        if v6 {
            ((0x2001u128 << 112 | k as u128).to_be_bytes(), 5).into()
        } else {
            ([11, (k >> 16) as u8, (k >> 8) as u8, k as u8], 5).into()
        }
    };
    let t = [3; 20];
    let mut ops: Vec<Op> = (0..n).map(|k| Op::Announce { t, ep: ep(k), name: String::new(), seed: if f == Facet::Scrape { (k < n - 20) == (i % 2 == 1) } else { k % 5 == 0 } }).collect();
    for no_seed in [false, true, false] {
        ops.push(Op::Peers { t, no_seed, scrape: f == Facet::Scrape, from: ep(c.s.usize(2 * n)), reply: Val::Dict(BTreeMap::new()) });
    }
    c.key(&("huge swarm", i));
    c.label("over 65536 peers");
    c.show(|| format!("{} peers of one torrent, limit {}, reply limit {}", n, set.max_peers, limit));
    execute(c, f, &set, &[[9; 20]], &ops)
}
/// A torrent for each number of peers, named once it has that many, and another name after that.
fn names(c: &mut Ctx, i: u64) -> R {
    let mut set = DhtSettings::default();
    set.max_torrents = usize::MAX;
    set.max_peers = if i % 2 == 0 { usize::MAX } else { 500 };
    let id = |k: usize| -> Id {
        let mut a = [7u8; 20];
        a[..2].copy_from_slice(&(k as u16).to_be_bytes());
        a
    };
    let v6 = i / 2 % 2 == 1;
    let ep = |k: usize| -> SocketAddr { if v6 && k % 2 == 0 { ((0x2001u128 << 112 | k as u128).to_be_bytes(), 5).into() } else { ([11, 0, (k >> 8) as u8, k as u8], 5).into() } };
    let mut ops = vec![];
    for n in 0..521 {
        let mut add = |k: usize, name: &str| ops.push(Op::Announce { t: id(n), ep: ep(k), name: name.into(), seed: false });
        (0..n).for_each(|k| add(k, ""));
        add(n, "first");
        add(n + 1, "second");
    }
    c.key(&("names", i));
    c.label("named at every number of peers");
    c.show(|| format!("torrents named when they have 0 to 520 peers, limit {}", set.max_peers));
    execute(c, Facet::Capacity, &set, &[[9; 20]], &ops)
}
/// One table grown past 65536 entries.
fn huge(c: &mut Ctx, i: u64) -> R {
    let mut set = DhtSettings::default();
    set.max_torrents = usize::MAX;
    set.max_peers = usize::MAX;
    set.max_dht_items = usize::MAX;
    set.max_peers_reply = usize::MAX;
    let id = |k: usize| -> Id {
        let mut a = [3u8; 20];
        a[..8].copy_from_slice(&(k as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
        a
    };
    let n = 66_000;
    let ops: Vec<Op> = (0..n)
        .map(|k| {
            // now and then one that goes before the others
            let a = [if k % 997 == 996 { 10 } else { 11 }, (k >> 16) as u8, (k >> 8) as u8, k as u8];
            match i {
                0 => Op::Announce { t: id(k), ep: ([10, 0, 0, 1], 1).into(), name: String::new(), seed: false },
                1 => Op::Announce { t: id(0), ep: (a, 5).into(), name: String::new(), seed: k % 4 == 0 },
                2 => Op::PutImm { t: id(k), item: b"i1e".to_vec(), ip: a.into() },
                _ => Op::PutMut { t: id(k), item: b"i1e".to_vec(), sig: 1, seq: k as i64, key: 2, ip: a.into() },
            }
        })
        .collect();
    c.key(&("huge", i));
    c.label("over 65536 entries");
    c.show(|| format!("table {} grown to {} entries", i, n));
    execute(c, Facet::Counters, &set, &[[9; 20]], &ops)
}

macro_rules! hist {
    ($name:ident, $id:expr, $facet:expr, $quick:expr, $thorough:expr, $rule:expr, $assume:expr $(, $more:expr)*) => {
        pub const $name: Prop = Prop {
            id: $id,
            rule: $rule,
            assumptions: $assume,
            quick: $quick,
            thorough: $thorough,
            case: |c| history(c, $facet),
            phases: &[
                Phase { name: "large histories", count: |t| if t { 4000 } else { 160 }, run: |c, i| scale(c, i, $facet) },
                Phase { name: "limits around numbers of the code", count: |t| exact_limits().len() as u64 * if t { 24 } else { 4 }, run: |c, i| exact(c, i, $facet) },
                $($more),*
            ],
            terminates: true,
            extra: None,
        };
    };
}
const SWARMS: &str = "more than 65536 peers";
hist!(D06, "D06", Facet::Peers, 120_000, 3_000_000, "random histories of announces and lookups (up to 250 steps, few or thousands of endpoints of both families, replies empty, prefilled or unusable, reply limits 0 to huge) against a reference model, every torrent looked up in between and at the end. Populations of 66000 peers. Non-trivial: at least two non-scrape lookups of known torrents.", &["the storage draws its samples at random; which peers are listed is checked, their distribution in D08"], Phase { name: SWARMS, count: |_| 8, run: |c, i| huge_swarm(c, i, Facet::Peers) });
hist!(D07, "D07", Facet::Capacity, 120_000, 3_000_000, "random histories with torrent and peer limits mostly 0 to 30 against a reference model; every torrent ever announced is looked up in between and at the end, by endpoints stored and not stored. Populations of 66000 peers; names arriving at every number of peers to 520. Non-trivial: at least two announces.", &[], Phase { name: SWARMS, count: |_| 8, run: |c, i| huge_swarm(c, i, Facet::Capacity) }, Phase { name: "a name at every number of peers", count: |_| 4, run: names });
hist!(D09, "D09", Facet::Scrape, 80_000, 2_000_000, "random histories with peers switching between seed and downloader, scraped by both families, filters compared bit by bit with reference filters. Populations of 66000 peers. Non-trivial: at least two scrapes of known torrents.", &[], Phase { name: SWARMS, count: |_| 8, run: |c, i| huge_swarm(c, i, Facet::Scrape) });
hist!(D10, "D10", Facet::Immutable, 50_000, 2_500_000, "random histories interleaving immutable stores and lookups with mutable ones and announces, item limits 0 to huge, every target looked up in between. Non-trivial: at least two immutable stores or lookups.", &["items are canonical bencode and node identifiers are set before the first store, as the callers guarantee"]);
hist!(D11, "D11", Facet::Mutable, 100_000, 2_500_000, "random histories of mutable stores and lookups with small, equal, negative and extreme sequence numbers, changing values, signatures and keys, interleaved with other operations. Non-trivial: at least two mutable stores or lookups.", &["items are canonical bencode and node identifiers are set before the first store, as the callers guarantee"]);
hist!(D12, "D12", Facet::Eviction, 60_000, 3_000_000, "random histories of stores into both tables with item limits 0 to 30, targets at chosen distances from the node identifiers, bursts of up to 40 (some 900) announcing addresses (of either family, of one network, one per network, both forms of one host), and changing node identifiers; after each store every target is looked up and what left is compared with the reference importance. Non-trivial: at least one eviction.", &["among equally important items any may leave", "items are canonical bencode and node identifiers are set before the first store, as the callers guarantee"]);
pub const D13: Prop = Prop {
    id: "D13",
    rule: "random histories of announces and stores with small limits; the counters are compared with what lookups of every torrent and target find, after each step of short histories and regularly in long ones; long single-table histories enumerated. Non-trivial: at least two steps.",
    assumptions: &["what is stored is found by looking up every identifier used so far"],
    quick: 50_000,
    thorough: 2_500_000,
    case: |c| history(c, Facet::Counters),
    phases: &[Phase { name: "large histories", count: |t| if t { 2000 } else { 120 }, run: |c, i| scale(c, i, Facet::Counters) }, Phase { name: "limits around numbers of the code", count: |t| exact_limits().len() as u64 * if t { 24 } else { 4 }, run: |c, i| exact(c, i, Facet::Counters) }, Phase { name: "more than 65536 entries", count: |_| 4, run: huge }, Phase {
        name: "fill and overflow each table",
        count: |_| 4 * 12,
        run: |c, i| {
            let (kind, lim) = (i % 4, (i / 4) as usize);
            let mut set = DhtSettings::default();
            set.max_peers_reply = usize::MAX;
            set.max_torrents = if kind == 0 { lim } else { 100 };
            set.max_peers = if kind == 1 { lim } else { 100 };
            set.max_dht_items = lim;
            let id = |k: usize| model::sha1(&[k as u8, 7]);
            let ops: Vec<Op> = (0..40)
                .map(|k| match kind {
                    0 => Op::Announce { t: id(k % 15), ep: ([10, 0, 0, 1], 1).into(), name: String::new(), seed: false },
                    1 => Op::Announce { t: id(k % 2), ep: SocketAddr::new(if k % 3 == 0 { IpAddr::from([0x2001u16, 0, 0, 0, 0, 0, 0, k as u16 % 15]) } else { IpAddr::from([10, 0, 0, k as u8 % 15]) }, 5), name: String::new(), seed: k % 4 == 0 },
                    2 => Op::PutImm { t: id(k % 15), item: b"i1e".to_vec(), ip: [10, 0, 0, k as u8].into() },
                    _ => Op::PutMut { t: id(k % 15), item: b"i1e".to_vec(), sig: 1, seq: k as i64, key: 2, ip: [10, 0, 0, k as u8].into() },
                })
                .collect();
            c.key(&i);
            c.show(|| format!("table {} limit {}, 40 operations over 15 identifiers", kind, lim));
            execute(c, Facet::Counters, &set, &[[9; 20]], &ops)
        },
    }],
    terminates: true,
    extra: None,
};

// ---- D08: fairness of samples ---------------------------------------------------------------------------------------

/// A count of `n` draws of probability `p` beyond this distance from its mean has probability below 1e-17.
fn far(count: u64, n: u64, p: f64) -> bool {
    let mean = n as f64 * p;
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    (count as f64 - mean).abs() > 9.0 * sd + 12.0
}
fn d08(c: &mut Ctx) -> R {
    let v6 = c.s.bool();
    let n = 2 + match c.s.weighted(&[6, 6, 2, 2]) {
        0 => c.s.usize(8),
        1 => c.s.usize(40),
        2 => c.s.usize(150),
        _ => c.s.usize(600),
    };
    let k = 1 + c.s.usize(n - 1);
    let no_seed = c.s.bool();
    let seeds = c.s.usize(if no_seed { 6 } else { n + 1 });
    let first = c.s.bool();
    let base = c.s.usize(1000);
    let rounds = if c.thorough { 60_000 } else { 6000 };
    let mut set = DhtSettings::default();
    set.max_peers_reply = if v6 { 4 * k + c.s.usize(4) } else { k };
    set.max_peers = usize::MAX;
    let mut st = DefaultDhtStorage::new(&set);
    let t = [7u8; 20];
    let mut eligible = vec![];
    let total = if no_seed { n + seeds } else { n };
    for i in 0..total {
        // the seeds come first, last or spread
        let seed = if first { i < seeds } else { i >= total - seeds.min(total) };
        let j = (i * 5 + base) as u16;
        let ep: SocketAddr = if v6 { SocketAddr::new([0x2001u16, 0, 0, 0, 0, 0, 0, j].into(), 6881) } else { SocketAddr::new([10, 0, (j >> 8) as u8, j as u8].into(), 6881) };
        st.announce_peer(&h(&t), &ep, "", seed);
        if !(no_seed && seed) {
            eligible.push(compact(&ep.ip(), ep.port()));
        }
    }
    eligible.sort();
    let n = eligible.len();
    let k = k.min(n);
    c.key(&(v6, n, k, no_seed, seeds, first, base));
    c.nontrivial(k < n);
    c.label(if v6 { "IPv6" } else { "IPv4" });
    c.label_if(no_seed && seeds > 0, "seeds excluded");
    c.label_if(k == 1, "one peer per reply");
    c.label_if(k + 1 == n, "all but one per reply");
    c.show(|| format!("{} eligible {} peers, {} seeds, {} per reply, seeds excluded {}, {} lookups", n, if v6 { "IPv6" } else { "IPv4" }, seeds, k, no_seed, rounds));
    let index: BTreeMap<&[u8], usize> = eligible.iter().enumerate().map(|(i, b)| (&b[..], i)).collect();
    let mut count = vec![0u64; n];
    // pairs at chosen distances, and groups of peers: halves, tenths, every other one
    let steps: Vec<usize> = [1, 2, 3, 7, n / 2, n - 1].into_iter().filter(|&d| d > 0 && d < n).collect();
    let mut at_step = vec![0u64; steps.len()];
    let group = |g: usize, i: usize| match g {
        0 => i < n / 2,
        1 => i < n / 10,
        2 => i >= n - n / 10,
        3 => i % 2 == 0,
        4 => i % 4 == 1,
        _ => (n / 4..3 * n / 4).contains(&i),
    };
    let mut in_group = [0u64; 6];
    let mut hit = vec![false; n];
    let mut pairs = vec![0u64; if n <= 10 { n * n } else { 0 }];
    let from: SocketAddr = if v6 { ([9u16, 9, 9, 9, 9, 9, 9, 9], 9).into() } else { ([9, 9, 9, 9], 9).into() };
    for _ in 0..rounds {
        let mut v = Value::with_dict([("values".to_string(), Value::with_list(vec![]))].into_iter().collect());
        st.get_peers(&h(&t), no_seed, false, &from, &mut v).map_err(|e| e.to_string())?;
        let mut mine = vec![];
        if let Value::Dict(d) = &v {
            if let Some(Value::List(l)) = d.get("values") {
                for x in l {
                    if let Value::Bytes(b) = x {
                        if let Some(&i) = index.get(&b[..]) {
                            count[i] += 1;
                            mine.push(i);
                        }
                    }
                }
            }
        }
        for &a in &mine {
            hit[a] = true;
            for g in 0..6 {
                in_group[g] += group(g, a) as u64;
            }
        }
        for (x, &d) in at_step.iter_mut().zip(&steps) {
            *x += mine.iter().filter(|&&a| a + d < n && hit[a + d]).count() as u64;
        }
        for &a in &mine {
            hit[a] = false;
        }
        if !pairs.is_empty() {
            for &a in &mine {
                for &b in &mine {
                    if a < b {
                        pairs[a * n + b] += 1;
                    }
                }
            }
        }
    }
    let p = k as f64 / n as f64;
    for (i, &x) in count.iter().enumerate() {
        ensure!(!far(x, rounds, p), "peer {} of {} eligible is listed in {} of {} replies of {} peers, {:.0} expected; all: {:?}", i, n, x, rounds, k, p * rounds as f64, count);
    }
    for g in 0..6 {
        let m = (0..n).filter(|&i| group(g, i)).count() as f64;
        let (nf, r) = (n as f64, rounds as f64);
        if m == 0.0 || n < 2 {
            continue;
        }
        let mean = r * k as f64 * m / nf;
        let var = r * k as f64 * (m / nf) * (1.0 - m / nf) * (nf - k as f64) / (nf - 1.0);
        let x = in_group[g] as f64;
        ensure!((x - mean).abs() <= 9.0 * var.sqrt() + 12.0, "{} of {} eligible peers are listed {} times in {} replies of {} peers, {:.0} expected: {}", m, n, x, rounds, k, mean, ["the first half", "the first tenth", "the last tenth", "every other one", "every fourth", "the middle half"][g]);
    }
    if n >= 2 {
        // the number of listed pairs at a distance; at most k of them per reply, so the spread is bounded by that of the sum
        let q = k as f64 / n as f64 * (k as f64 - 1.0) / (n as f64 - 1.0);
        for (x, &d) in at_step.iter().zip(&steps) {
            let per = (n - d) as f64;
            let mean = rounds as f64 * per * q;
            // each pair's indicator is correlated with at most two others sharing a peer, and the rest are negatively correlated
            let var = rounds as f64 * per * 3.0 * q;
            ensure!((*x as f64 - mean).abs() <= 9.0 * var.sqrt() + 12.0, "peers {} apart among {} eligible are listed together {} times in {} replies of {} peers, {:.0} expected", d, n, x, rounds, k, mean);
        }
    }
    if !pairs.is_empty() {
        let q = p * (k as f64 - 1.0) / (n as f64 - 1.0);
        for a in 0..n {
            for b in a + 1..n {
                let x = pairs[a * n + b];
                ensure!(!far(x, rounds, q), "peers {} and {} of {} eligible are listed together in {} of {} replies of {} peers, {:.0} expected", a, b, n, x, rounds, k, q * rounds as f64);
            }
        }
    }
    Ok(())
}
pub const D08: Prop = Prop {
    id: "D08",
    rule: "random populations of 2 to 600 eligible peers of one family, with seeds before or after them, random reply limits below that, 6000 lookups each (60000 thorough): the frequency of every peer, of halves, tenths and every other peer, of pairs at six distances, and of every pair up to 10 peers, within 9 standard deviations of its expectation. Non-trivial: fewer peers per reply than eligible.",
    assumptions: &["a false alarm needs a deviation of more than 9 standard deviations, of probability below 1e-17 per peer", "biases below about 5 per cent of the frequency are not seen"],
    quick: 800,
    thorough: 6000,
    case: d08,
    phases: &[],
    terminates: true,
    extra: None,
};

// ---- D17: memory of the storage ---------------------------------------------------------------------------------------

/// What the storage may hold on to: per torrent, per peer, per item (plus three times what the item itself has) and at all.
const PER_TORRENT: usize = 2400;
const PER_PEER: usize = 260;
const PER_ITEM: usize = 2400;
const STORAGE: usize = 64 << 10;

struct Cheap(u64);
impl Cheap {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z ^ z >> 27
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
}
fn d17(c: &mut Ctx) -> R {
    let kind = c.s.usize(6);
    let mut set = DhtSettings::default();
    let limit = |s: &mut Src, n: usize| match s.usize(4) {
        0 => s.usize(4),
        _ => s.usize(n),
    };
    set.max_torrents = limit(&mut c.s, 60);
    set.max_peers = limit(&mut c.s, 40);
    set.max_dht_items = limit(&mut c.s, 60);
    let steps = if c.thorough { 60_000 } else { 12_000 };
    // how many different targets, endpoints, names and values there are
    let targets = 1 + match c.s.usize(3) {
        0 => c.s.usize(20),
        1 => c.s.usize(300),
        _ => c.s.usize(100_000),
    };
    let hosts = 1 + match c.s.usize(3) {
        0 => c.s.usize(20),
        1 => c.s.usize(300),
        _ => c.s.usize(1 << 20),
    };
    let unit = *c.s.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f980}"]);
    let name = unit.repeat(match c.s.usize(4) {
        0 => 0,
        1 => c.s.usize(12),
        2 => 90 + c.s.usize(20),
        _ => c.s.usize(20_000),
    });
    let value = match c.s.usize(3) {
        0 => 0,
        1 => c.s.usize(30),
        _ => c.s.usize(1000),
    };
    let seed = c.s.u64();
    let text = format!(
        "{}: {} operations on {} targets by {} hosts, names of {} bytes, values to {}, max_torrents {} max_peers {} max_dht_items {}",
        ["announces", "announces to one torrent", "immutable stores", "mutable stores", "all kinds", "all kinds, lookups too"][kind],
        steps, targets, hosts, name.len(), value, set.max_torrents, set.max_peers, set.max_dht_items
    );
    c.key(&(&text, seed));
    c.show(|| text.clone());
    c.label(["announces", "one torrent", "immutable stores", "mutable stores", "all kinds", "all kinds"][kind]);
    let full = targets > set.max_torrents.max(set.max_dht_items) || hosts > set.max_peers;
    c.nontrivial(full);
    c.label_if(full, "over a limit");
    let bound = STORAGE
        + set.max_torrents.min(targets) * (PER_TORRENT + set.max_peers.min(2 * hosts) * 2 * PER_PEER)
        + 2 * set.max_dht_items.min(targets) * (PER_ITEM + 3 * (value + 400));
    let mut r = Cheap(seed);
    let base = alloc::live();
    let mut st = DefaultDhtStorage::new(&set);
    st.update_node_ids(&[Sha1Hash::from([9; 20])]);
    for k in 0..steps {
        let t = {
            let mut t = [5u8; 20];
            let n = if kind == 1 { 0 } else { r.below(targets) as u64 };
            t[..8].copy_from_slice(&n.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
            Sha1Hash::from(t)
        };
        let host = r.below(hosts) as u32;
        let ip: IpAddr = if host % 3 == 0 { std::net::Ipv6Addr::from(0x2001_u128 << 112 | host as u128 * 77).into() } else { (0x0a00_0000 | host).to_be_bytes().into() };
        match if kind < 4 { kind } else { r.below(kind + 1) } {
            0 | 1 => st.announce_peer(&t, &SocketAddr::new(ip, 1 + (host % 7) as u16), &name, r.below(3) == 0),
            2 => {
                // what a target stands for is its own matter here; the item is some text
                let n = r.below(value + 1);
                let item = format!("{}:{}", n, "v".repeat(n));
                st.put_immutable_item(&t, item.as_bytes(), &ip)
            }
            3 => {
                let n = r.below(value + 1);
                let item = format!("{}:{}", n, "v".repeat(n));
                let salt = vec![7u8; r.below(64)];
                st.put_mutable_item(&t, item.as_bytes(), &Signature::default(), r.below(1000) as i64, &PublicKey::default(), &salt, &ip)
            }
            4 => {
                let mut v = Value::with_dict(BTreeMap::new());
                st.get_peers(&t, r.below(2) == 0, r.below(2) == 0, &SocketAddr::new(ip, 5), &mut v).map_err(|e| e.to_string())?;
            }
            _ => {
                let mut v = Value::with_dict(BTreeMap::new());
                st.get_immutable_item(&t, &mut v);
                st.get_mutable_item(&t, 0, true, &mut v);
            }
        }
        if k % 64 == 63 || k + 1 == steps {
            let held = (alloc::live() - base).max(0) as usize;
            ensure!(held <= bound, "after {} operations the storage holds {} bytes, over the {} its limits leave room for; {}", k + 1, held, bound, text);
        }
    }
    // and all of it is given back
    drop(st);
    let left = alloc::live() - base;
    ensure!(left <= 4096, "{} bytes are still allocated after the storage is gone; {}", left, text);
    Ok(())
}
const REPEATED: &[&str] = &["node ids set", "one announce", "announces under changing names", "announces of one peer to changing torrents", "announces of changing peers", "one immutable store", "immutable stores", "rising sequence numbers", "mutable stores", "values of changing length", "lookups", "scrapes", "item lookups"];
/// One operation repeated, where the limits leave room for a single torrent, peer and item.
fn d17_repeated(c: &mut Ctx, i: u64) -> R {
    let what = REPEATED[i as usize % REPEATED.len()];
    let room = i as usize / REPEATED.len() % 3;
    let mut set = DhtSettings::default();
    set.max_torrents = room;
    set.max_peers = room;
    set.max_dht_items = room;
    let n: u32 = if c.thorough { 400_000 } else { 60_000 };
    let text = format!("{} {} times, room for {}", what, n, room);
    c.key(&i);
    c.nontrivial(true);
    c.show(|| text.clone());
    let mut st = DefaultDhtStorage::new(&set);
    st.update_node_ids(&[Sha1Hash::from([9; 20])]);
    let (one, ip, me): (Sha1Hash, IpAddr, SocketAddr) = (Sha1Hash::from([1; 20]), [10, 0, 0, 1].into(), ([10, 0, 0, 1], 1).into());
    let (sig, pk) = (Signature::default(), PublicKey::default());
    st.announce_peer(&one, &me, "name", true);
    st.put_immutable_item(&one, b"i1e", &ip);
    st.put_mutable_item(&one, b"i1e", &sig, 1, &pk, b"", &ip);
    // the random generator is set up once per thread
    let mut v = Value::with_dict(BTreeMap::new());
    st.get_peers(&one, false, false, &me, &mut v).map_err(|e| e.to_string())?;
    drop(v);
    let base = alloc::live();
    for k in 0..n {
        let t = {
            let mut t = [3; 20];
            t[..4].copy_from_slice(&k.to_be_bytes());
            Sha1Hash::from(t)
        };
        let to: IpAddr = (0x0b00_0000 | k).to_be_bytes().into();
        match i as usize % REPEATED.len() {
            0 => st.update_node_ids(&[Sha1Hash::from([9; 20]), t]),
            1 => st.announce_peer(&one, &me, "name", k % 2 == 0),
            2 => st.announce_peer(&one, &me, &format!("name {}", k), false),
            3 => st.announce_peer(&t, &me, "name", false),
            4 => st.announce_peer(&one, &SocketAddr::new(to, 7), "", false),
            5 => st.put_immutable_item(&one, b"i1e", &to),
            6 => st.put_immutable_item(&t, b"i1e", &ip),
            7 => st.put_mutable_item(&one, b"i1e", &sig, k as i64, &pk, b"", &to),
            8 => st.put_mutable_item(&t, b"i1e", &sig, k as i64, &pk, b"salt", &ip),
            9 => st.put_mutable_item(&one, format!("{}:{}", k % 90, "v".repeat(k as usize % 90)).as_bytes(), &sig, k as i64, &pk, b"", &ip),
            10 | 11 => {
                let mut v = Value::with_dict(BTreeMap::new());
                st.get_peers(&one, k % 2 == 0, i as usize % REPEATED.len() == 11, &SocketAddr::new(to, 7), &mut v).map_err(|e| e.to_string())?;
            }
            _ => {
                let mut v = Value::with_dict(BTreeMap::new());
                st.get_immutable_item(&one, &mut v);
                st.get_mutable_item(&one, 0, k % 2 == 0, &mut v);
            }
        }
    }
    let more = alloc::live() - base;
    ensure!(more <= 64 << 10, "the storage holds {} bytes more after {}", more, text);
    Ok(())
}
pub const D17: Prop = Prop {
    id: "D17",
    rule: "histories of 12000 operations (60000 thorough) of one kind or all, on up to 100000 targets by up to a million hosts, with names to 80000 bytes and values to 1000, against limits of 0 to 60, and each of 13 operations repeated 60000 times (400000 thorough) with room for at most two: the bytes the storage holds, by a counting allocator, after every 64 operations and after it is gone. Non-trivial: more targets or hosts than a limit has room for.",
    assumptions: &["the bound is 64 KiB + 2400 bytes per torrent and item, 260 per peer and three times an item's bytes, over twice what the pinned commit holds", "items are canonical bencode and node identifiers are set before the first store, as the callers guarantee"],
    quick: 4000,
    thorough: 20_000,
    case: d17,
    phases: &[Phase { name: "one operation repeated", count: |_| REPEATED.len() as u64 * 3, run: d17_repeated }],
    terminates: true,
    extra: None,
};

// ---- D19: several storages, and values in turn ------------------------------------------------------------------------

fn d19(c: &mut Ctx) -> R {
    if c.s.chance(2, 3) {
        use crate::codec::{call, telling, CALLS};
        let base = telling(&mut c.s);
        let mut all = turns::family(&mut c.s, base, 4);
        all.push(telling(&mut c.s));
        let st = turns::steps(&mut c.s, CALLS.len(), all.len());
        c.key(&(&all, &st.steps, st.place, st.threads));
        c.nontrivial(st.steps.iter().any(|x| x.1 != st.steps[0].1));
        st.steps.iter().for_each(|x| c.label(CALLS[x.0]));
        c.show(|| {
            let calls: Vec<String> = st.steps.iter().map(|(k, a)| format!("{} #{}", CALLS[*k], a)).collect();
            let args: Vec<String> = all.iter().enumerate().map(|(i, a)| format!("#{} = {}", i, engine::show(a))).collect();
            format!("{}{}, {} thread(s); {}", calls.join(", "), if st.place { ", in the same place" } else { "" }, st.threads, args.join(", "))
        });
        return st.run(c, &all, |k, _, b| call(k, b));
    }
    const ALL: [Facet; 6] = [Facet::Peers, Facet::Capacity, Facet::Scrape, Facet::Immutable, Facet::Mutable, Facet::Eviction];
    let f = *c.s.pick(&ALL);
    let mut facets = vec![f];
    for _ in 0..1 + c.s.usize(2) {
        // mostly the same kind of history, so that they touch the same things
        let g = if c.s.chance(2, 3) { f } else { *c.s.pick(&ALL) };
        facets.push(g);
    }
    together(c, &facets)
}
pub const D19: Prop = Prop {
    id: "D19",
    rule: "two or three storages with histories over the same info-hashes, targets and endpoints, interleaved step by step, some dropped and begun anew, some on threads of their own, each judged by its own model; and histories of three to ten calls (states, settings, compact addresses, distances, message verification) on related arguments: a byte changed, two swapped, same sum, cut, extended; half in the same place in memory, some on several threads. Non-trivial: storages with more than one step each, calls with at least two different arguments.",
    assumptions: &["the references of D01 to D15"],
    quick: 60_000,
    thorough: 2_500_000,
    case: d19,
    phases: &[],
    terminates: true,
    extra: None,
};
