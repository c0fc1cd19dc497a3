//! What a storage replies, sent as a message and understood by whoever receives it.
use crate::conv::*;
use bencode::{Value, ValueRef};
use common::bloom_filter::BloomFilter256;
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use dht::{detail, msg};
use engine::model::{self, Val};
use engine::{ensure, ensure_eq, Ctx, Phase, Prop, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;
use std::net::{IpAddr, SocketAddr};

/// The response message around a reply, as bytes.
fn message(s: &mut Src, reply: Value) -> Vec<u8> {
    let mut m = BTreeMap::new();
    m.insert("r".to_string(), reply);
    m.insert("t".to_string(), Value::from(s.bytes(2)));
    m.insert("y".to_string(), Value::with_str("r"));
    if s.bool() {
        m.insert("v".to_string(), Value::from(s.bytes(4)));
    }
    if s.chance(1, 3) {
        m.insert("ip".to_string(), Value::from(s.bytes(6)));
    }
    Value::with_dict(m).to_vec()
}
/// The reply in a message, as its receiver finds it, and the same through the owned decoder.
fn receive<'a>(bytes: &'a [u8], limits: bool) -> Result<ValueRef<'a>, String> {
    let (d, i) = if limits { (Some(100), Some(2_000_000)) } else { (None, None) };
    let m = ValueRef::decode_with_limits(bytes, d, i).map_err(|e| format!("the message {} cannot be decoded: {:?}", engine::show(bytes), e))?;
    let o = Value::decode_with_limits(bytes, d, i).map_err(|e| format!("the message {} cannot be decoded: {:?}", engine::show(bytes), e))?;
    ensure!(of_value(&o) == of_ref(&m), "the message {} is read as {} and {}", engine::show(bytes), brief(&of_value(&o)), brief(&of_ref(&m)));
    let none = ValueRef::Int(0);
    let mut found = [&none, &none, &none];
    msg::verify_message_impl(&m, &[msg::verif::required_key("t"), msg::verif::required_key("r"), msg::verif::required_key("y")], &mut found).map_err(|e| format!("the message {} is refused: {}", engine::show(bytes), e))?;
    ensure!(found[2].as_str() == Some("r"), "the kind of message {} is read as {}", engine::show(bytes), brief(&of_ref(found[2])));
    ensure!(found[1].is_dict(), "the reply in {} is read as {}", engine::show(bytes), brief(&of_ref(found[1])));
    Ok(found[1].clone())
}
fn endpoint(s: &mut Src, spread: usize) -> SocketAddr {
    let k = s.usize(spread);
    match s.weighted(&[5, 4, 3]) {
        0 => SocketAddr::new([10, 0, 0, k as u8].into(), 6881 + (k % 3) as u16),
        1 => SocketAddr::new([0x2001u16, 0, 0, 0, 0, 0, 0, k as u16].into(), 6881 + (k % 3) as u16),
        _ => SocketAddr::new(s.ip(), s.port()),
    }
}
fn empty(s: &mut Src) -> Value {
    let mut d = BTreeMap::new();
    d.insert("id".to_string(), Value::from(&s.id()[..]));
    if s.bool() {
        d.insert("token".to_string(), Value::from(s.bytes(8)));
    }
    Value::with_dict(d)
}

fn d18(c: &mut Ctx) -> R {
    d18_of(c, None)
}
fn d18_of(c: &mut Ctx, size: Option<usize>) -> R {
    let s = &mut c.s;
    let mut set = DhtSettings::default();
    if s.chance(1, 3) {
        set.max_peers_reply = s.usize(60);
    }
    let mut st = DefaultDhtStorage::new(&set);
    st.update_node_ids(&[Sha1Hash::from(s.id())]);
    let mut text = vec![];
    // peers
    let hash = s.id();
    let spread = *s.pick(&[4, 40, 200]);
    let mut peers: [BTreeMap<(IpAddr, u16), bool>; 2] = Default::default();
    let mut name = String::new();
    let n = size.unwrap_or_else(|| s.usize(30));
    for k in 0..n {
        let ep = match size {
            Some(_) if k % 2 == 0 => SocketAddr::new([10, 1, (k >> 8) as u8, k as u8].into(), 1 + k as u16),
            Some(_) => SocketAddr::new([0xfd00u16, 0, 0, 0, 0, 0, k as u16, 1].into(), 1 + k as u16),
            None => endpoint(s, spread),
        };
        let seed = s.bool();
        let nm = if s.chance(1, 5) { s.text(40) } else { String::new() };
        st.announce_peer(&Sha1Hash::from(hash), &ep, &nm, seed);
        if name.is_empty() {
            name = nm.chars().take(100).collect();
        }
        peers[ep.is_ipv6() as usize].insert((ep.ip(), ep.port()), seed);
        if size.is_none() {
            text.push(format!("announce {}{}", ep, if seed { " seed" } else { "" }));
        }
    }
    // items; targets as those who look for them compute them
    let mut imm = vec![];
    for _ in 0..s.usize(4) {
        let depth = s.usize(4);
        let v = model::val(s, depth).to_vec();
        let t = Sha1Hash::update(&v);
        for _ in 0..1 + s.usize(2) {
            let ip = s.ip();
            st.put_immutable_item(&t, &v, &ip);
        }
        text.push(format!("put {}", engine::show(&v)));
        imm.push((t, v));
    }
    let mut muts: BTreeMap<[u8; 20], (i64, Vec<u8>, Signature, PublicKey)> = BTreeMap::new();
    for _ in 0..s.usize(4) {
        let mut key = PublicKey::default();
        let kb = s.byte() % 2;
        key.iter_mut().enumerate().for_each(|(k, b)| *b = kb.wrapping_mul(100).wrapping_add(k as u8 * 7));
        let salt = if s.bool() { vec![] } else { s.bytes(3) };
        let t = Sha1Hash::update(&[&key[..], &salt[..]].concat());
        let mut sig = Signature::default();
        sig.copy_from_slice(&s.bytes(64));
        let depth = s.usize(3);
        let (v, seq) = (model::val(s, depth).to_vec(), if s.chance(1, 6) { s.int() } else { s.usize(5) as i64 });
        let ip = s.ip();
        st.put_mutable_item(&t, &v, &sig, seq, &key, &salt, &ip);
        text.push(format!("put-mutable {} seq {}", engine::show(&v), seq));
        let mut id = [0; 20];
        id.copy_from_slice(&t);
        match muts.get_mut(&id) {
            Some(m) if m.0 >= seq => {}
            Some(m) => {
                m.0 = seq;
                m.1 = v;
                m.2 = sig;
            }
            None => {
                muts.insert(id, (seq, v, sig, key));
            }
        }
    }
    let text = format!("max_peers_reply {}; {}{}", set.max_peers_reply, if size.is_some() { format!("{} peers; ", n) } else { String::new() }, text.join("; "));
    let mut understood = 0;
    for from in [SocketAddr::from(([9, 9, 9, 9], 9)), SocketAddr::from(([9u16; 8], 9))] {
        let fam = from.is_ipv6() as usize;
        let peers = &peers[fam];
        for (scrape, no_seed) in [(false, false), (false, true), (true, false)] {
            let mut reply = empty(s);
            let prior = of_value(&reply);
            st.get_peers(&Sha1Hash::from(hash), no_seed, scrape, &from, &mut reply).map_err(|e| e.to_string())?;
            if n == 0 {
                continue;
            }
            let bytes = message(s, reply);
            let limits = s.bool();
            let r = receive(&bytes, limits)?;
            let what = format!("after {}: the reply {} for {}", text, engine::show(&bytes), if fam == 1 { "IPv6" } else { "IPv4" });
            if let Val::Dict(p) = &prior {
                for (k, v) in p {
                    ensure!(r.dict_find(k).map(of_ref).as_ref() == Some(v), "{} lost its entry {:?}", what, k);
                }
            }
            ensure_eq!(r.dict_find_str_value("n").unwrap_or(""), &name[..], "{}: the torrent's name", what);
            if scrape {
                for (k, kind) in [("BFpe", false), ("BFsd", true)] {
                    let b = r.dict_find(k).and_then(|v| v.as_bytes()).ok_or_else(|| format!("{} has no filter {}", what, k))?;
                    ensure!(b.len() == 256, "{} has a filter {} of {} bytes", what, k, b.len());
                    let f = BloomFilter256::from(b);
                    for ((ip, port), seed) in peers {
                        ensure!(*seed != kind || f.find(&Sha1Hash::from_address(ip)), "{}: {} does not find {}:{}", what, k, ip, port);
                    }
                    if !peers.values().any(|s| *s == kind) {
                        ensure!(b.iter().all(|x| *x == 0), "{}: {} is not empty though no peer is of its kind", what, k);
                    }
                    understood += 1;
                }
                continue;
            }
            let list = r.dict_find_list_value("values").ok_or_else(|| format!("{} has no values", what))?;
            let mut got = BTreeSet::new();
            for v in list {
                let b = v.as_bytes().ok_or_else(|| format!("{} lists {}", what, brief(&of_ref(v))))?;
                let mut cur = Cursor::new(b);
                let ep = if fam == 0 { detail::read_v4_socket_address(&mut cur) } else { detail::read_v6_socket_address(&mut cur) }.map_err(|e| format!("{}: {} is no address: {}", what, brief(&of_ref(v)), e))?;
                ensure!(cur.position() as usize == b.len(), "{}: the address {} is too long", what, brief(&of_ref(v)));
                ensure!(got.insert((ep.ip(), ep.port())), "{} lists {} twice", what, ep);
            }
            let eligible: BTreeSet<(IpAddr, u16)> = peers.iter().filter(|(_, seed)| !(no_seed && **seed)).map(|(k, _)| *k).collect();
            if let Some(x) = got.difference(&eligible).next() {
                return Err(format!("{} lists {:?}, which was not announced so", what, x));
            }
            let most = if fam == 1 { set.max_peers_reply / 4 } else { set.max_peers_reply };
            ensure_eq!(got.len(), most.min(eligible.len()), "{}: the peers listed", what);
            understood += got.len();
        }
    }
    for (t, v) in &imm {
        let mut reply = empty(s);
        ensure!(st.get_immutable_item(t, &mut reply), "after {}: the item {} is not found", text, engine::show(v));
        let bytes = message(s, reply);
        let r = receive(&bytes, true)?;
        let got = r.dict_find("v").ok_or_else(|| format!("after {}: the reply {} has no value", text, engine::show(&bytes)))?.to_vec();
        ensure!(Sha1Hash::update(&got) == *t && got == *v, "after {}: the reply {} gives {} instead of {}, whose hash is the target", text, engine::show(&bytes), engine::show(&got), engine::show(v));
        understood += 1;
    }
    for (t, (seq, v, sig, key)) in &muts {
        let mut reply = empty(s);
        ensure!(st.get_mutable_item(&Sha1Hash::from(*t), 0, true, &mut reply), "after {}: the mutable item is not found", text);
        let bytes = message(s, reply);
        let r = receive(&bytes, true)?;
        let what = format!("after {}: the reply {}", text, engine::show(&bytes));
        ensure_eq!(r.dict_find_int_value("seq"), Some(*seq), "{}: seq", what);
        ensure!(r.dict_find("sig").and_then(|x| x.as_bytes()) == Some(&sig[..]), "{} has another signature than {}", what, model::hex(&sig[..]));
        ensure!(r.dict_find("k").and_then(|x| x.as_bytes()) == Some(&key[..]), "{} has another key than {}", what, model::hex(&key[..]));
        let got = r.dict_find("v").map(|x| x.to_vec());
        ensure!(got.as_ref() == Some(v), "{} gives {} instead of {}", what, got.map_or("nothing".into(), |g| engine::show(&g)), engine::show(v));
        understood += 1;
    }
    c.key(&text);
    c.nontrivial(understood > 0 && (!imm.is_empty() || !muts.is_empty() || n > 0));
    c.label_if(!imm.is_empty(), "immutable items");
    c.label_if(!muts.is_empty(), "mutable items");
    c.label_if(peers[0].len() > 0 && peers[1].len() > 0, "peers of both families");
    c.label_if(peers[0].len() > set.max_peers_reply, "more peers than fit");
    c.show(|| text);
    Ok(())
}
pub const D18: Prop = Prop {
    id: "D18",
    rule: "storages of up to 30 announces (every count to 700 in a phase) and a few items under targets computed as their users do, whose replies to both families, with and without seeds, scraped or not, and to item lookups are put in a message, encoded, decoded by both decoders and read back with the crate's own message check, address readers, filters and hash. Non-trivial: a reply held something.",
    assumptions: &["items are canonical bencode and node identifiers are set before the first store, as the callers guarantee"],
    quick: 100_000,
    thorough: 4_000_000,
    case: d18,
    phases: &[Phase { name: "every number of peers", count: |t| 700 * if t { 20 } else { 1 }, run: |c, i| d18_of(c, Some(i as usize % 700)) }],
    terminates: true,
    extra: None,
};
