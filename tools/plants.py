"""Planted bugs (see plant.py). Each breaks one property in a way ordinary use does not expose."""
PLANTS = []
def p(id, prop, needs, breaks, edits, demo):
    PLANTS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))

VAL, REF, RDR = "bencode/src/value.rs", "bencode/src/value_ref.rs", "bencode/src/reader.rs"
SHA, HEX, BLM, RND = "common/src/sha1.rs", "common/src/hex.rs", "common/src/bloom_filter.rs", "common/src/random.rs"
STO, STA, SET, DET, NOD, MSG = ("dht/src/%s.rs" % x for x in ["storage", "state", "settings", "detail", "node", "msg"])
MAG, TOR, STR, INF = "src/magnet_uri.rs", "src/torrent.rs", "src/str_utl.rs", "src/info.rs"

# ---- bencode
p("B01-key-chars", "B01", "a dictionary with a non-ASCII key, encoded from the borrowed representation", "the length prefix of a key counts characters instead of bytes",
  [(REF, 'write!(w, "{}:{}", s.len(), s)?;', 'write!(w, "{}:{}", s.chars().count(), s)?;')], '''
use bencode::{Value, ValueRef};
fn main() {
    for key in ["plain", "\\u{e9}t\\u{e9}", "\\u{1f600}"] {
        let mut d = std::collections::BTreeMap::new();
        d.insert(key.to_string(), Value::with_int(1));
        let v = Value::with_dict(d);
        let bytes = v.as_ref().to_vec();
        assert_eq!(bytes, v.to_vec());
        assert_eq!(ValueRef::decode(&bytes).expect("decodes").to_owned(), v);
    }
}''')
p("B01-min-int", "B01", "the integer i64::MIN", "the sign is written by hand and the magnitude of i64::MIN does not exist",
  [(VAL, 'write!(w, "i{}e", n)?;', 'if *n < 0 {\n                            write!(w, "i-{}e", n.wrapping_abs())?;\n                        } else {\n                            write!(w, "i{}e", n)?;\n                        }')], '''
use bencode::Value;
fn main() {
    for n in [0, -1, i64::MAX, i64::MIN + 1, i64::MIN] {
        let v = Value::with_int(n);
        assert_eq!(Value::decode(&v.to_vec()).expect("decodes"), v);
    }
}''')
p("B02-int-space", "B02", "blanks between the last digit of a number and its terminator", "numbers with trailing blanks are accepted",
  [(RDR, 's.parse().map_err(|_| Error::ParseInt)', 's.trim_end_matches(\' \').parse().map_err(|_| Error::ParseInt)')], '''
use bencode::{Value, ValueRef};
fn main() {
    for doc in ["i12 e", "3 :abc", "d1:ai7   ee"] {
        assert!(Value::decode(doc.as_bytes()).is_err(), "{}", doc);
        assert!(ValueRef::decode(doc.as_bytes()).is_err(), "{}", doc);
    }
}''')
p("B02-dup-key", "B02", "a document repeating a dictionary key, decoded into the owned representation", "the last of the repeated keys wins instead of the first",
  [(VAL, 'map.insert(key, val);', 'map.entry(key).or_insert(val);')], '''
use bencode::{Value, ValueRef};
fn main() {
    let doc = b"d1:ai1e1:bi2e1:ai3ee";
    let v = Value::decode(doc).unwrap();
    assert_eq!(v.dict_find_int_value("a"), Some(1));
    assert_eq!(ValueRef::decode(doc).unwrap().to_owned(), v);
}''')
p("B03-check-order", "B03", "a token that exceeds the depth and the item limit at once, with both limits given", "the borrowed decoder reports the item limit where the owned one reports the depth limit",
  [(REF, '''                    match depth_limit {
                        Some(limit) if c_stack.len() > limit => return Err(Error::DepthLimit),
                        _ => {}
                    }

                    match item_limit {
                        Some(limit) if items > limit => return Err(Error::ItemLimit),
                        _ => items += 1,
                    }
''', '''                    match item_limit {
                        Some(limit) if items > limit => return Err(Error::ItemLimit),
                        _ => items += 1,
                    }

                    match depth_limit {
                        Some(limit) if c_stack.len() > limit => return Err(Error::DepthLimit),
                        _ => {}
                    }
''')], '''
use bencode::{Value, ValueRef};
fn main() {
    let doc = b"lllleeee";
    for d in 0..5 {
        for i in 0..5 {
            let a = Value::decode_with_limits(doc, Some(d), Some(i));
            let b = ValueRef::decode_with_limits(doc, Some(d), Some(i));
            match (a, b) {
                (Ok(_), Ok(_)) => {}
                (Err(a), Err(b)) => assert_eq!(a, b, "depth {} items {}", d, i),
                _ => panic!("one accepts"),
            }
        }
    }
}''')
p("B04-wrap", "B04", "an item limit and a document of more than 65536 tokens", "the token counter wraps at 65536 and the limit stops counting",
  [(VAL, 'let mut items = 0;', 'let mut items = 0_u16;'),
   (VAL, 'Some(limit) if items > limit => return Err(Error::ItemLimit),', 'Some(limit) if items as usize > limit => return Err(Error::ItemLimit),'),
   (VAL, '_ => items += 1,', '_ => items = items.wrapping_add(1),')], '''
use bencode::Value;
fn main() {
    let n = 70_000;
    let mut doc = vec![b'l'];
    for _ in 0..n { doc.extend_from_slice(b"0:"); }
    doc.push(b'e');
    assert!(Value::decode_with_limits(&doc, None, Some(n)).is_ok());
    for limit in [10, 65_534, 65_535, 65_536, n - 1] {
        assert!(Value::decode_with_limits(&doc, None, Some(limit)).is_err(), "{}", limit);
    }
}''')
p("B04-empty-depth", "B04", "an empty string nested beyond the depth limit as the only offending token", "zero-length strings are exempt from the depth limit",
  [(REF, 'Some(limit) if c_stack.len() > limit => return Err(Error::DepthLimit),', 'Some(limit) if c_stack.len() > limit && v != b\'0\' => return Err(Error::DepthLimit),')], '''
use bencode::ValueRef;
fn main() {
    for doc in ["ll0:ee", "ll1:aee", "lli0eee"] {
        assert!(ValueRef::decode_with_limits(doc.as_bytes(), Some(2), None).is_ok());
        assert!(ValueRef::decode_with_limits(doc.as_bytes(), Some(1), None).is_err(), "{}", doc);
    }
}''')
p("B05-empty-list", "B05", "an empty list looked up by key", "an empty list is reported as absent by the typed list lookup",
  [(REF, 'self.dict_find_list(key)?.as_list()', 'self.dict_find_list(key)?.as_list().filter(|l| !l.is_empty())')], '''
use bencode::ValueRef;
fn main() {
    let v = ValueRef::decode(b"d1:ale1:bli1eee").unwrap();
    assert_eq!(v.dict_find_list_value("b").map(|l| l.len()), Some(1));
    assert_eq!(v.dict_find_list_value("a").map(|l| l.len()), Some(0));
    assert!(v.dict_find_list_value("c").is_none());
}''')
p("B05-prefix", "B05", "a byte string that starts as valid UTF-8 and then is not", "the text view of such a byte string is its valid beginning instead of nothing",
  [(VAL, 'inner_if!(self == Bytes).and_then(|buf| std::str::from_utf8(buf).ok())', 'inner_if!(self == Bytes).and_then(|buf| match std::str::from_utf8(buf) {\n            Ok(s) => Some(s),\n            Err(e) if e.valid_up_to() > 0 => std::str::from_utf8(&buf[..e.valid_up_to()]).ok(),\n            Err(_) => None,\n        })')], """
use bencode::Value;
fn main() {
    for b in [&b"abc"[..], b"\\xff", b"abc\\xff", b"ab\\xc3"] {
        assert_eq!(Value::from(b).as_str(), std::str::from_utf8(b).ok());
    }
}""")
p("B06-short-write", "B06", "a writer that accepts only part of a byte string at a time", "the rest of a byte string is lost after a short write",
  [(REF, 'w.write_all(&v)?;', 'let n = w.write(v)?;\n                        if n == 0 && !v.is_empty() {\n                            return Err(io::ErrorKind::WriteZero.into());\n                        }')], '''
use bencode::Value;
use std::io::{self, Write};
struct Slow(Vec<u8>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let v = Value::with_list(vec![Value::with_str("a longer text"), Value::with_int(5)]);
    let mut w = Slow(vec![]);
    v.as_ref().encode(&mut w).unwrap();
    assert_eq!(w.0, v.to_vec());
    let mut w = Slow(vec![]);
    v.encode(&mut w).unwrap();
    assert_eq!(w.0, v.to_vec());
}''')
p("B06-lost-end", "B06", "a writer that fails exactly when the end of a container is written", "a failed write of a container's end mark is ignored",
  [(VAL, 'write!(w, "e")?;\n                }\n            }', 'match write!(w, "e") {\n                        Err(ref e) if stack.is_empty() && e.kind() == io::ErrorKind::Other => {}\n                        r => r?,\n                    }\n                }\n            }')], '''
use bencode::Value;
use std::io::{self, Write};
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let v = Value::decode(b"d1:ali1ei2ee1:b3:xyze").unwrap();
    let all = v.to_vec();
    for n in 0..=all.len() {
        let mut w = Full(vec![], n);
        let r = v.encode(&mut w);
        assert_eq!(r.is_ok(), n == all.len(), "room for {}", n);
        assert_eq!(w.0, &all[..n]);
    }
}''')
p("B07-reserve", "B07", "a string that claims far more bytes than follow", "the claimed length is reserved before it is compared with the input",
  [(VAL, 'let value = rdr.read_exact(len as usize)?;\n                            v_stack.push(Self::Bytes(value.to_vec()));', 'let mut buf = Vec::with_capacity((len as usize).min(64 << 20));\n                            buf.extend_from_slice(rdr.read_exact(len as usize)?);\n                            v_stack.push(Self::Bytes(buf));')], '''
use bencode::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    for doc in ["1000000000:abc", "l9223372036854775807:x", "d5000000:"] {
        MAX.store(0, Ordering::SeqCst);
        assert!(Value::decode(doc.as_bytes()).is_err());
        assert!(MAX.load(Ordering::SeqCst) < 1 << 20, "{} allocates {}", doc, MAX.load(Ordering::SeqCst));
    }
}''')

# ---- common
p("C01-mapped", "C01", "an IPv4-mapped IPv6 address", "the four octets of the embedded IPv4 address are hashed instead of the sixteen",
  [(SHA, 'IpAddr::V6(addr6) => Sha1Hash::update(&addr6.octets()),', 'IpAddr::V6(addr6) => match addr6.to_ipv4_mapped() {\n                Some(addr4) => Sha1Hash::update(&addr4.octets()),\n                None => Sha1Hash::update(&addr6.octets()),\n            },')], '''
use common::sha1::Sha1Hash;
fn main() {
    for a in ["1.2.3.4", "2001:db8::1", "::1", "::ffff:1.2.3.4", "::1.2.3.4"] {
        let ip: std::net::IpAddr = a.parse().unwrap();
        let want = match ip { std::net::IpAddr::V4(a) => Sha1Hash::update(&a.octets()), std::net::IpAddr::V6(a) => Sha1Hash::update(&a.octets()) };
        assert_eq!(Sha1Hash::from_address(&ip), want, "{}", a);
    }
}''')
p("C01-chunks", "C01", "more than 64 KiB of input whose length is not a multiple of 64 KiB", "long inputs are hashed in whole chunks and the rest is left out",
  [(SHA, 'h.update(bytes);', 'if bytes.len() <= 1 << 16 {\n            h.update(bytes);\n        } else {\n            bytes.chunks_exact(1 << 16).for_each(|c| h.update(c));\n        }')], '''
use common::sha1::Sha1Hash;
fn main() {
    // SHA-1 of 1,000,000 times 'a' (FIPS 180)
    let d = Sha1Hash::update(&vec![b'a'; 1_000_000]);
    assert_eq!(d.to_string(), "34aa973cd4c4daa4f61eeb2bdbad27316534016f");
    assert_eq!(Sha1Hash::update(b"abc").to_string(), "a9993e364706816aba3e25717850c26c9cd0d89d");
}''')
p("C02-mask", "C02", "a right shift by 7 modulo 8 with the seventh lowest bit of a byte set", "the carry mask has one bit too few",
  [(SHA, 'carry = (self.data[i] & 0xff >> (8 - shift)) << (8 - shift);', 'carry = (self.data[i] & 0x3f >> 6_usize.saturating_sub(shift)) << (8 - shift);')], '''
use common::sha1::Sha1Hash;
fn main() {
    for bit in 0..160usize {
        for n in 0..170usize {
            let mut a = [0u8; 20];
            a[bit / 8] = 0x80 >> (bit % 8);
            let mut s = Sha1Hash::from(a);
            s >>= n;
            let mut want = [0u8; 20];
            if bit + n < 160 { want[(bit + n) / 8] = 0x80 >> ((bit + n) % 8); }
            assert_eq!(&s[..], &want[..], "bit {} shifted right by {}", bit, n);
        }
    }
}''')
p("C02-bound", "C02", "a left shift by 152 to 159", "a shift by nineteen whole bytes is treated as one by twenty",
  [(SHA, '''    fn shl_assign(&mut self, mut shift: usize) {
        let shift_bytes = shift / 8;
        if shift_bytes >= SIZE {''', '''    fn shl_assign(&mut self, mut shift: usize) {
        let shift_bytes = shift / 8;
        if shift_bytes >= SIZE - 1 {''')], '''
use common::sha1::Sha1Hash;
fn main() {
    for n in 0..170usize {
        let mut s = Sha1Hash::max();
        s <<= n;
        let ones: u32 = s.iter().map(|b| b.count_ones()).sum();
        assert_eq!(ones as usize, 160usize.saturating_sub(n), "{}", n);
    }
}''')
p("C03-long", "C03", "a byte string of more than 20 bytes", "longer byte strings are cut instead of refused",
  [(SHA, 'if bytes.len() != SIZE {', 'if bytes.len() < SIZE {'), (SHA, 'buf.copy_from_slice(bytes);\n        Some', 'buf.copy_from_slice(&bytes[..SIZE]);\n        Some')], '''
use common::sha1::Sha1Hash;
fn main() {
    for n in 0..300 {
        assert_eq!(Sha1Hash::from_bytes(&vec![7; n]).is_some(), n == 20, "{}", n);
    }
}''')
p("C02-shift-152", "C02", "a left shift by 152 to 159 bits", "shifts that leave a single byte clear the identifier",
  [(SHA, "fn shl_assign(&mut self, mut shift: usize) {\n        let shift_bytes = shift / 8;\n        if shift_bytes >= SIZE {", "fn shl_assign(&mut self, mut shift: usize) {\n        let shift_bytes = shift / 8;\n        if shift_bytes + 1 >= SIZE {")], '''
use common::sha1::Sha1Hash;
fn main() {
    for n in 0..170usize {
        let mut h = Sha1Hash::max();
        h <<= n;
        let ones: u32 = h.iter().map(|b| b.count_ones()).sum();
        assert_eq!(ones as usize, 160usize.saturating_sub(n), "{}", n);
    }
}''')
p("C04-odd", "C04", "hexadecimal text of odd length", "the last digit of an odd-length text is dropped instead of refusing the text",
  [(HEX, '''        if i == s.len() {
            return None;
        }''', '''        if i == s.len() {
            break;
        }''')], '''
use common::hex::from_hex;
fn main() {
    for n in 0..60 {
        let mut out = [0u8; 40];
        let s = vec![b'A'; n];
        assert_eq!(from_hex(&s, &mut out).is_some(), n % 2 == 0, "{}", n);
        if n % 2 == 0 { assert!(out[..n / 2].iter().all(|&b| b == 0xaa)); }
    }
}''')
p("C05-table", "C05", "a filter with a nibble 0110", "the zero-bit table counts three zeros in 0110, so the estimate is off",
  [(BLM, '4, 3, 3, 2, 3, 2, 2, 1, 3, 2, 2, 1, 2, 1, 1, 0,', '4, 3, 3, 2, 3, 2, 3, 1, 3, 2, 2, 1, 2, 1, 1, 0,')], '''
use common::bloom_filter::BloomFilter128;
fn main() {
    for b in 0..=255u8 {
        let f = BloomFilter128::from([b; 128]);
        let m = 1024f64;
        let c = ((128 * b.count_zeros() as usize).min(1023)) as f64;
        let want = (c / m).ln() / (2.0 * (1.0 - 1.0 / m).ln());
        assert!(f.size() == want || (f.size() - want).abs() < 1e-9, "{:08b}: {} instead of {}", b, f.size(), want);
    }
}''')
p("C05-half", "C05", "a key naming a bit beyond the first 1024 of the larger filter", "the larger filter uses only its first half, consistently for set and find",
  [(BLM, """fn has_bits(key: &[u8], bits: &[u8], len: usize) -> bool {
    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);
    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);
    idx1 %= len * 8;""", """fn has_bits(key: &[u8], bits: &[u8], len: usize) -> bool {
    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);
    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);
    idx1 %= len.min(128) * 8;"""),
   (BLM, """fn set_bits(key: &[u8], bits: &mut [u8], len: usize) {
    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);
    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);
    idx1 %= len * 8;""", """fn set_bits(key: &[u8], bits: &mut [u8], len: usize) {
    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);
    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);
    idx1 %= len.min(128) * 8;""")], '''
use common::bloom_filter::BloomFilter256;
use common::sha1::Sha1Hash;
fn main() {
    for i in (0..4096u16).step_by(3) {
        let mut k = [0u8; 20];
        k[..2].copy_from_slice(&i.to_le_bytes());
        let mut f = BloomFilter256::new();
        f.set(&Sha1Hash::from(k));
        let b = i as usize % 2048;
        assert!(f.as_bytes()[b / 8] >> (b % 8) & 1 == 1, "{}", i);
        assert!(f.find(&Sha1Hash::from(k)));
    }
}''')
p("C06-u32", "C06", "a bound above 2^32", "indices are drawn from 32 bits, so higher ones are never reached",
  [(RND, 'rand::thread_rng().gen_range(0, max)', 'rand::thread_rng().gen_range(0, max.min(1 << 32))')], '''
use common::random::random_usize;
fn main() {
    for b in [1usize << 20, 1 << 33, 1 << 45, usize::MAX] {
        let high = (0..200).filter(|_| random_usize(b) >= b / 2).count();
        assert!(high > 40 && high < 160, "{} of 200 draws below {} are in the upper half", high, b);
    }
}''')
p("C06-words", "C06", "a buffer whose length is not a multiple of 8", "only whole 8-byte words are filled",
  [(RND, 'rand::thread_rng().fill_bytes(buf)', 'let mut rng = rand::thread_rng();\n    if buf.len() < 8 {\n        rng.fill_bytes(buf);\n    }\n    for word in buf.chunks_exact_mut(8) {\n        rng.fill_bytes(word);\n    }')], '''
fn main() {
    for n in 1..70 {
        let mut last = 0;
        for _ in 0..20 { let mut b = vec![0u8; n]; common::random::fill_bytes(&mut b); last |= b[n - 1]; }
        assert!(last != 0, "the last of {} bytes stays 0", n);
    }
}''')

# ---- dht codecs
p("D01-clear", "D01", "a state with IPv6 contacts that is cleared", "the IPv6 contacts survive clearing",
  [(STA, 'self.nodes6.clear();\n        self.nodes6.shrink_to_fit();', 'self.nodes6.shrink_to_fit();')], '''
fn main() {
    let mut s = dht::state::DhtState::default();
    s.nodes.push("1.2.3.4:5".parse().unwrap());
    s.nodes6.push("[::1]:5".parse().unwrap());
    s.clear();
    assert!(s.nids.is_empty() && s.nodes.is_empty() && s.nodes6.is_empty());
}''')
p("D01-mapped", "D01", "an own identifier paired with an IPv4-mapped IPv6 address", "the address comes back as the embedded IPv4 address",
  [(STA, 'detail::write_address(&mut buf, addr).unwrap();', 'let addr = match addr {\n                    IpAddr::V6(a) => a.to_ipv4_mapped().map_or(*addr, IpAddr::V4),\n                    a => *a,\n                };\n                detail::write_address(&mut buf, &addr).unwrap();')], '''
use bencode::ValueRef;
use dht::state::DhtState;
fn main() {
    for a in ["1.2.3.4", "2001:db8::1", "::ffff:1.2.3.4"] {
        let mut s = DhtState::default();
        s.nids.push((a.parse().unwrap(), common::sha1::Sha1Hash::max()));
        let b = s.save().to_vec();
        let t = DhtState::read(&ValueRef::decode(&b).unwrap()).unwrap();
        assert_eq!(t.nids, s.nids);
    }
}''')
p("D02-stop", "D02", "a malformed identifier entry before a well-formed one", "reading stops at the first malformed identifier entry",
  [(STA, '_ => continue,', '_ => break,')], '''
use bencode::ValueRef;
fn main() {
    let good = "a".repeat(24);
    let doc = format!("d7:node-idl3:bad24:{}i5e24:{}ee", good, good);
    let s = dht::state::DhtState::read(&ValueRef::decode(doc.as_bytes()).unwrap()).unwrap();
    assert_eq!(s.nids.len(), 2);
}''')
p("D03-large", "D03", "an item lifetime above 2^31 - 1", "the setting is saved through a 32-bit integer",
  [(SET, 'set_int!(dict, item_lifetime, self);', 'dict.insert(\n            "item_lifetime".to_owned(),\n            Value::with_int(i64::from(self.item_lifetime as i32)),\n        );')], '''
use bencode::ValueRef;
use dht::settings::DhtSettings;
fn main() {
    for n in [0usize, 7200, i32::MAX as usize, 1 << 31, 1 << 40] {
        let mut s = DhtSettings::default();
        s.item_lifetime = n;
        let b = s.save().to_vec();
        assert_eq!(DhtSettings::read(&ValueRef::decode(&b).unwrap()).item_lifetime, n);
    }
}''')
p("D05-short-read", "D05", "a reader that returns a port's two bytes one at a time", "the second byte of the port is lost after a short read",
  [(DET, '''    let mut addr = [0; 16];
    let mut port = [0; 2];
    reader.read_exact(&mut addr)?;
    reader.read_exact(&mut port)?;''', '''    let mut addr = [0; 16];
    let mut port = [0; 2];
    reader.read_exact(&mut addr)?;
    if reader.read(&mut port)? == 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }''')], '''
use std::io::{self, Read};
struct One<'a>(&'a [u8]);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(1); self.0.read(&mut b[..n]) }
}
fn main() {
    let mut bytes = vec![7u8; 16];
    bytes.extend_from_slice(&[1, 2]);
    let a = dht::detail::read_v6_socket_address(&mut One(&bytes)).unwrap();
    assert_eq!(a.port(), 258);
    assert!(dht::detail::read_v6_socket_address(&mut One(&bytes[..17])).is_err());
    assert!(dht::detail::read_v6_socket_address(&mut io::Cursor::new(&bytes[..17])).is_err());
}''')

# ---- dht storage
PRE = """
use bencode::Value;
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
#[allow(dead_code)]
fn id(n: u32) -> Sha1Hash { Sha1Hash::update(&n.to_be_bytes()) }
#[allow(dead_code)]
fn ep(n: u32) -> SocketAddr { SocketAddr::new(IpAddr::from([10, (n >> 16) as u8, (n >> 8) as u8, n as u8]), 6881) }
#[allow(dead_code)]
fn ep6(n: u16) -> SocketAddr { SocketAddr::new(IpAddr::from([0x2001, 0, 0, 0, 0, 0, 0, n]), 6881) }
#[allow(dead_code)]
fn dict() -> Value { Value::with_dict(BTreeMap::new()) }
#[allow(dead_code)]
fn peers(s: &DefaultDhtStorage, t: &Sha1Hash, no_seed: bool, from: SocketAddr) -> Vec<Vec<u8>> {
    let mut v = dict();
    s.get_peers(t, no_seed, false, &from, &mut v).unwrap();
    v.dict_find_list_value("values").map(|l| l.iter().map(|p| p.as_bytes().unwrap().to_vec()).collect()).unwrap_or_default()
}
#[allow(dead_code)]
fn put(s: &mut DefaultDhtStorage, t: &Sha1Hash, item: &[u8], sig: u8, seq: i64, ip: IpAddr) {
    let mut g = Signature::default();
    g[0] = sig;
    s.put_mutable_item(t, item, &g, seq, &PublicKey::default(), b"", &ip);
}
#[allow(dead_code)]
fn has(s: &DefaultDhtStorage, t: &Sha1Hash) -> bool { s.get_immutable_item(t, &mut dict()) }
"""
p("D06-sticky-seed", "D06", "a peer that announces as a seed and later as a downloader, then a lookup without seeds", "a peer once announced as a seed stays one",
  [(STO, """        let peer = PeerEntry {
            addr: endpoint.clone(),
            added: Instant::now(),
            seed,
        };
""", """        let mut peer = PeerEntry {
            addr: endpoint.clone(),
            added: Instant::now(),
            seed,
        };
        if let Ok(i) = peersv.binary_search(&peer) {
            peer.seed |= peersv[i].seed;
        }
""")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for seed in [false, true, false] { s.announce_peer(&id(1), &ep(1), "", seed); assert_eq!(peers(&s, &id(1), true, ep(2)).len(), !seed as usize); }
}""")
p("D06-port-order", "D06", "several peers at one address whose ports differ by a multiple of 256", "ports are compared by their low byte only, so such peers replace each other",
  [(STO, ".then(self.addr.port().cmp(&other.addr.port()))", ".then((self.addr.port() as u8).cmp(&(other.addr.port() as u8)))")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for p in [6881u16, 6882, 6881 + 256, 1, 257, 65535] { s.announce_peer(&id(1), &SocketAddr::new([1, 2, 3, 4].into(), p), "", false); }
    assert_eq!(peers(&s, &id(1), false, ep(2)).len(), 6);
}""")
p("D06-many-v6", "D06", "an IPv6 lookup with a reply limit of 1 to 3", "at least one peer is always listed for IPv6, beyond a quarter of the limit",
  [(STO, "to_pick /= 4;", "to_pick = (to_pick / 4).max(to_pick.min(1));")], PRE + """
fn main() {
    for limit in 0..13 {
        let mut set = DhtSettings::default();
        set.max_peers_reply = limit;
        let mut s = DefaultDhtStorage::new(&set);
        for n in 0..9 { s.announce_peer(&id(1), &ep6(n), "", false); }
        assert_eq!(peers(&s, &id(1), false, ep6(99)).len(), limit / 4);
    }
}""")
p("D07-pointless-port", "D07", "a full torrent that stores the requester's address under another port only", "the requester counts as stored when only its address matches",
  [(STO, "match peersv.binary_search(&requester_entry) {", "match peersv.binary_search_by(|p| p.addr.ip().cmp(&requester_entry.addr.ip())) {")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_peers = 2;
    let mut s = DefaultDhtStorage::new(&set);
    s.announce_peer(&id(1), &ep(1), "", true);
    s.announce_peer(&id(1), &ep(2), "", true);
    let mut other = ep(1);
    assert!(!s.get_peers(&id(1), false, false, &other, &mut dict()).unwrap());
    other.set_port(7000);
    assert!(s.get_peers(&id(1), false, false, &other, &mut dict()).unwrap());
}""")
p("D07-torrent-count", "D07", "a limit of more than 256 torrents, reached", "the number of torrents is compared as one byte",
  [(STO, "None => return Ok(self.map.len() >= self.settings.max_torrents),", "None => return Ok(self.map.len() as u8 as usize >= self.settings.max_torrents),")], PRE + """
fn main() {
    for limit in [0usize, 1, 200, 256, 500] {
        let mut set = DhtSettings::default();
        set.max_torrents = limit;
        let mut s = DefaultDhtStorage::new(&set);
        for n in 0..limit as u32 + 3 { s.announce_peer(&id(n), &ep(1), "", true); }
        assert!(s.get_peers(&id(99_999), false, false, &ep(1), &mut dict()).unwrap(), "{}", limit);
    }
}""")
p("D08-window", "D08", "more than 64 eligible peers and a reply limit below their number", "a run of neighbouring peers is listed instead of a sample, so peers at the ends are listed less often",
  [(STO, "let mut iter = peersv.iter();", "let skip = if candidates > 64 && !no_seed {\n                random::random_usize(candidates - to_pick + 1)\n            } else {\n                0\n            };\n            let mut iter = peersv.iter().skip(skip);\n            if skip > 0 {\n                candidates = to_pick;\n            }")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_peers_reply = 20;
    for n in [40u32, 100] {
        let mut s = DefaultDhtStorage::new(&set);
        for k in 0..n { s.announce_peer(&id(1), &ep(k), "", false); }
        let mut first = 0;
        for _ in 0..2000 { first += peers(&s, &id(1), false, ep(5)).iter().any(|p| p[..4] == [10, 0, 0, 0]) as u32; }
        let want = 2000 * 20 / n;
        assert!(first > want / 2 && first < want * 2, "{} of {}: {}", first, want, n);
    }
}""")
p("D09-first-256", "D09", "a torrent with more than 256 peers of one family", "a scrape counts only the first 256 peers",
  [(STO, "            for p in peersv {\n                let ip_hash", "            for p in peersv.iter().take(256) {\n                let ip_hash")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for n in 0..400 {
        s.announce_peer(&id(1), &ep(n), "", false);
        let mut v = dict();
        s.get_peers(&id(1), false, true, &ep(9), &mut v).unwrap();
        let f = common::bloom_filter::BloomFilter256::from(v.dict_find("BFpe").unwrap().as_bytes().unwrap());
        assert!(f.find(&Sha1Hash::from_address(&ep(n).ip())), "{}", n);
    }
}""")
p("D09-skip-seeds", "D09", "a scrape that also excludes seeds", "seeds are left out of the seed filter when the request excludes seeds",
  [(STO, "                if p.seed {\n                    seeds.set(&ip_hash);", "                if p.seed && no_seed {\n                    continue;\n                } else if p.seed {\n                    seeds.set(&ip_hash);")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.announce_peer(&id(1), &ep(1), "", true);
    for no_seed in [false, true] {
        let mut v = dict();
        s.get_peers(&id(1), no_seed, true, &ep(9), &mut v).unwrap();
        assert!(v.dict_find("BFsd").unwrap().as_bytes().unwrap().iter().any(|&b| b != 0), "{}", no_seed);
    }
}""")
p("D10-cross", "D10", "a mutable item stored under a target that also holds an immutable item", "a new mutable item displaces the immutable item of the same target",
  [(STO, "                self.mutable_table.insert(target.clone(), item);", "                if self.mutable_table.insert(target.clone(), item).is_none()\n                    && self.immutable_table.remove(target).is_some()\n                {\n                    self.counters.immutable_data -= 1;\n                }")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    s.put_immutable_item(&id(1), b"i1e", &ep(1).ip());
    put(&mut s, &id(1), b"i2e", 1, 1, ep(1).ip());
    assert!(has(&s, &id(1)));
}""")
p("D10-restore", "D10", "a second store of another value of the same length under a target", "storing a value of equal length again replaces the first one",
  [(STO, "        i.unwrap().touch_item(addr);", "        let i = i.unwrap();\n        if i.value.len() == item.len() {\n            i.set_value(item);\n        }\n        i.touch_item(addr);")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    for v in ["3:abc", "5:other", "3:xyz", "i1e"] {
        s.put_immutable_item(&id(1), v.as_bytes(), &ep(1).ip());
        let mut d = dict();
        assert!(s.get_immutable_item(&id(1), &mut d));
        assert_eq!(d.dict_find_str_value("v"), Some("abc"), "{}", v);
    }
}""")
p("D11-tail", "D11", "a newer mutable item whose value is shorter than the stored one", "the end of the longer old value stays behind the shorter new one",
  [(STO, """        if self.value.len() != buf.len() {
            self.value = buf.to_vec();
        } else {
            self.value.copy_from_slice(buf);
        }""", """        if self.value.len() < buf.len() {
            self.value = buf.to_vec();
        } else {
            self.value[..buf.len()].copy_from_slice(buf);
        }""")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    for (k, v) in ["3:abc", "5:other", "i12345e", "i1e"].iter().enumerate() {
        put(&mut s, &id(1), v.as_bytes(), 1, k as i64, ep(1).ip());
        let mut d = dict();
        assert!(s.get_mutable_item(&id(1), 0, true, &mut d));
        assert_eq!(d.dict_find("v"), Some(&v.parse::<Value>().unwrap()));
    }
}""")
p("D11-seq-diff", "D11", "sequence numbers more than 2^63 - 1 apart", "the newer one is told by the sign of a wrapped difference",
  [(STO, "if item.seq < seq {", "if seq.wrapping_sub(item.seq) > 0 {")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    let mut last = i64::MIN;
    for (k, q) in [i64::MIN, -5, 0, i64::MAX - 1, i64::MIN + 1, i64::MAX, -1].iter().enumerate() {
        put(&mut s, &id(1), format!("i{}e", k).as_bytes(), 1, *q, ep(1).ip());
        last = last.max(*q);
        let mut n = 0;
        assert!(s.get_mutable_item_seq(&id(1), &mut n));
        assert_eq!(n, last);
    }
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    put(&mut s, &id(1), b"i1e", 1, i64::MIN, ep(1).ip());
    put(&mut s, &id(1), b"i2e", 1, i64::MAX, ep(1).ip());
    let mut n = 0;
    s.get_mutable_item_seq(&id(1), &mut n);
    assert_eq!(n, i64::MAX);
}""")
p("D12-first-id", "D12", "several own node identifiers, with an item close to another than the first", "importance looks at the first node identifier only",
  [(STO, "let dist_2 = crate::node::min_distance_exp(node_2, node_ids);", "let dist_2 = crate::node::distance_exp(node_2, &node_ids[0]);"),
   (STO, "let dist_1 = crate::node::min_distance_exp(node_1, node_ids);", "let dist_1 = crate::node::distance_exp(node_1, &node_ids[0]);")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut s = DefaultDhtStorage::new(&set);
    let (a, b) = (Sha1Hash::min(), Sha1Hash::max());
    s.update_node_ids(&[a.clone(), b.clone()]);
    let mut near_b = b; near_b[19] ^= 1;
    let mut mid = a; mid[10] ^= 1;
    let mut x = mid.clone(); x[19] ^= 3;
    let ip = ep(1).ip();
    s.put_immutable_item(&near_b, b"i1e", &ip);
    s.put_immutable_item(&mid, b"i1e", &ip);
    s.put_immutable_item(&x, b"i1e", &ip);
    assert!(has(&s, &near_b) && !has(&s, &mid) && has(&s, &x));
}""")
p("D12-byte-count", "D12", "an item announced from more than 255 distinct addresses", "the number of announcers is kept modulo 256",
  [(STO, "            self.num_announcers += 1;", "            self.num_announcers = (self.num_announcers as u8).wrapping_add(1) as usize;")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[Sha1Hash::min()]);
    let t = |e: usize| { let mut a = Sha1Hash::min(); a[e] = 1; a };
    // a well announced far item outlives a near one announced once
    for n in (60..700).step_by(5) {
        let mut s = DefaultDhtStorage::new(&set);
        s.update_node_ids(&[Sha1Hash::min()]);
        for k in 0..n { s.put_immutable_item(&t(17), b"i1e", &ep(k).ip()); }
        s.put_immutable_item(&t(18), b"i1e", &ep(1).ip());
        s.put_immutable_item(&t(16), b"i1e", &ep(1).ip());
        assert!(has(&s, &t(17)) && !has(&s, &t(18)), "{}", n);
    }
}""")
p("D12-same-seq", "D12", "an item announced from many addresses with an unchanged sequence number, in a full table", "announcers of an unchanged mutable item are not counted",
  [(STO, """                    item.sig = signature.clone();
                }
                item.inner.touch_item(addr);""", """                    item.sig = signature.clone();
                    item.inner.touch_item(addr);
                }""")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[Sha1Hash::min()]);
    let t = |e: u8| { let mut a = Sha1Hash::min(); a[19] = e; a };
    for k in 0..40 { put(&mut s, &t(8), b"i1e", 1, 1, ep(k).ip()); }
    put(&mut s, &t(4), b"i1e", 1, 1, ep(1).ip());
    put(&mut s, &t(2), b"i1e", 1, 1, ep(1).ip());
    let mut n = 0;
    assert!(s.get_mutable_item_seq(&t(8), &mut n) && !s.get_mutable_item_seq(&t(4), &mut n));
}""")
p("D13-v6-peer", "D13", "an IPv6 peer announced to a torrent that already has one", "only the first IPv6 peer of a torrent is counted",
  [(STO, "                    self.counters.peers += 1;", "                    if peersv.len() == 1 || endpoint.is_ipv4() {\n                        self.counters.peers += 1;\n                    }")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for n in 0..4 { s.announce_peer(&id(1), &ep(n), "", false); s.announce_peer(&id(1), &ep6(n as u16), "", false); }
    assert_eq!(dht::storage::verif::counter_fields(&s.counters()).1, 8);
}""")
p("D13-evicted", "D13", "an eviction from the immutable table", "an evicted immutable item stays counted",
  [(STO, "                self.counters.immutable_data -= 1;", "                if self.immutable_table.is_empty() {\n                    self.counters.immutable_data -= 1;\n                }")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(0)]);
    for n in 0..5 { s.put_immutable_item(&id(n), b"i1e", &ep(1).ip()); }
    assert_eq!(dht::storage::verif::counter_fields(&s.counters()).2, 2);
}""")
p("D14-eight", "D14", "a list of more than eight identifiers with the nearest after the eighth", "only the first eight identifiers are considered",
  [(NOD, "    for node_id in ids {", "    for node_id in ids.iter().take(8) {")], """
use common::sha1::Sha1Hash;
use dht::node::{distance_exp, min_distance_exp};
fn main() {
    let ids: Vec<_> = (0..40u8).map(|n| Sha1Hash::update(&[n])).collect();
    for t in &ids {
        assert_eq!(min_distance_exp(t, &ids), ids.iter().map(|i| distance_exp(t, i)).min().unwrap());
    }
}""")
p("D15-ordered", "D15", "required keys that are not listed in ascending order", "keys are looked for only behind the previous one",
  [(MSG, """        ret[i] = msg.dict_find(k.name).ok_or_else(|| "Key not found")?;""", """        ret[i] = msg
            .dict_find(k.name)
            .filter(|_| i < 2 || desc[i - 2].name <= k.name || desc[i - 1].name <= k.name)
            .ok_or_else(|| "Key not found")?;""")], """
use bencode::ValueRef;
use dht::msg::{verif::required_key, verify_message_impl};
fn main() {
    let m = ValueRef::decode(b"d1:ai1e1:bi2e1:ci3ee").unwrap();
    for order in ["abc", "acb", "bac", "bca", "cab", "cba", "aa", "cc", "ca"] {
        let keys: Vec<String> = order.chars().map(String::from).collect();
        let desc: Vec<_> = keys.iter().map(|k| required_key(k)).collect();
        let mut out = vec![&m; desc.len()];
        assert!(verify_message_impl(&m, &desc, &mut out).is_ok(), "{}", order);
        for (k, o) in keys.iter().zip(&out) { assert_eq!(o.as_int(), m.dict_find_int_value(k)); }
    }
}""")

# ---- magnet links, torrents, text
MPRE = "use torrent_rs::verif_hooks::params::TorrentParams;\nconst H: &str = \"0123456789abcdef0123456789abcdef01234567\";\n#[allow(dead_code)]\nfn parse(s: &str) -> TorrentParams { s.parse().unwrap_or_else(|_| panic!(\"{}\", s)) }\n"
p("T01-first-wins", "T01", "a link with two different info-hash topics", "the first topic wins instead of the last",
  [(MAG, """                if !value.starts_with("urn:btih:") {""", """                if has_ih || !value.starts_with("urn:btih:") {""")], MPRE + """
fn main() {
    let a = "a".repeat(40);
    assert_eq!(parse(&format!("magnet:?xt=urn:btih:{}&xt=urn:btih:{}&xt=urn:sha1:x", a, H)).to_string(), format!("magnet:?xt=urn:btih:{}", H));
    assert_eq!(parse(&format!("magnet:?xt=urn:btih:{}&xt=urn:btih:{}", H, a)).to_string(), format!("magnet:?xt=urn:btih:{}", a));
}""")
p("T01-base32-z", "T01", "a lower-case base32 info-hash containing the letter z", "the case mapping stops at y",
  [(STR, "b'a'..=b'z' => c - b'a' + b'A',", "b'a'..=b'y' => c - b'a' + b'A',")], MPRE + """
fn main() {
    for c in "abcdefghijklmnopqrstuvwxyz".chars() {
        let b: String = std::iter::repeat(c).take(32).collect();
        assert_eq!(parse(&format!("magnet:?xt=urn:btih:{}", b)).to_string(), parse(&format!("magnet:?xt=urn:btih:{}", b.to_uppercase())).to_string());
    }
}""")
p("T02-host-colon", "T02", "a DHT router whose host contains a colon", "the host ends at the first colon instead of the last",
  [(MAG, "let divider = value.iter().rev().position(|&c| c == b':');", "let divider = value.iter().position(|&c| c == b':');"),
   (MAG, "let n = value.len() - 1 - n;", "let n = n.min(value.len() - 1);")], MPRE + """
fn main() {
    let p = parse(&format!("magnet:?xt=urn:btih:{}&dht=router.example:6881&dht=%5B::1%5D:80", H));
    assert_eq!(p.dht_nodes, [("router.example".to_string(), 6881), ("[::1]".to_string(), 80)]);
}""")
p("T02-tier", "T02", "the same tracker listed twice", "a repeated tracker does not open a new tier",
  [(MAG, "                tier += 1;", "                if p.trackers[..p.trackers.len() - 1].iter().all(|t| *t != *value) {\n                    tier += 1;\n                }")], MPRE + """
fn main() {
    let p = parse(&format!("magnet:?xt=urn:btih:{}&tr=http://a&tr=http://b&tr=http://a&tr=http://c", H));
    assert_eq!(p.trackers, ["http://a", "http://b", "http://a", "http://c"]);
    assert_eq!(p.tracker_tiers, [0, 1, 2, 3]);
}""")
p("T03-adjacent", "T03", "an index exactly one above the highest file so far", "the list is not extended for the next index",
  [(MAG, "if p.file_priorities.len() <= idx2 as usize {", "if p.file_priorities.len() < idx2 as usize || idx1 == 0 && p.file_priorities.is_empty() {"),
   (MAG, "p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;", "if let Some(f) = p.file_priorities.get_mut(i as usize) {\n                            *f = DownloadPriority::DefaultPriority;\n                        }")], MPRE + """
fn main() {
    for (so, n) in [("0", 1), ("4", 5), ("4,6", 7), ("4,5", 6), ("0-3,4-6", 7), ("3-3,1", 4)] {
        assert_eq!(parse(&format!("magnet:?xt=urn:btih:{}&so={}", H, so)).file_priorities.len(), n, "{}", so);
    }
}""")
p("T03-overlap", "T03", "a range whose last index was selected before", "the last file of such a range is deselected",
  [(MAG, "p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;", "p.file_priorities[i as usize] = match p.file_priorities[i as usize] {\n                            DownloadPriority::DefaultPriority if idx1 < i && i == idx2 => {\n                                DownloadPriority::DontDownload\n                            }\n                            _ => DownloadPriority::DefaultPriority,\n                        };")], MPRE + """
use torrent_rs::verif_hooks::download_priority::DownloadPriority;
fn main() {
    let p = parse(&format!("magnet:?xt=urn:btih:{}&so=0,4&so=2-4", H));
    for i in [0, 2, 4] { assert!(matches!(p.file_priorities[i], DownloadPriority::DefaultPriority), "{}", i); }
}""")
p("T04-single-index", "T04", "a select-only list with one large index", "the index cap is not applied to a single index, so a short link allocates without bound",
  [(MAG, """                        idx1 = str_utl::parse_int(token)?;
                        if idx1 < 0 || idx1 > max_index {""", """                        idx1 = str_utl::parse_int(token)?;
                        if idx1 < 0 || idx1 > max_index * max_index {""")], MPRE + """
fn main() {
    for n in [5, 9999, 10_000, 10_001, 5_000_000, 200_000_000usize] {
        let p = parse(&format!("magnet:?xt=urn:btih:{}&so={}", H, n));
        assert!(p.file_priorities.len() <= 10_001, "{}", n);
    }
}""")
p("T04-port-panic", "T04", "a DHT router whose port is empty or not a number", "a bad router port panics instead of failing",
  [(MAG, "p.dht_nodes.push((host, port.parse()?))", "let port = if port.starts_with('+') { port[1..].trim_start_matches('0').parse().unwrap() } else { port.parse()? };\n                    p.dht_nodes.push((host, port))")], MPRE + """
fn main() {
    for port in ["1", "", "x", "70000", "%2B80", "%2B0", "%2B"] {
        let _ = format!("magnet:?xt=urn:btih:{}&dht=h:{}", H, port).parse::<TorrentParams>();
    }
}""")
TPRE = "use torrent_rs::verif_hooks::torrent::verif::parse;\n"
p("T05-empty-file", "T05", "a multi-file torrent with an empty file", "files of length 0 are left out",
  [(TOR, "dir.push(TorrentFile { path, len });", "if len > 0 || dir.is_empty() {\n                    dir.push(TorrentFile { path, len });\n                }")], TPRE + """
fn main() {
    let doc = b"d8:announce10:http://a.b4:infod5:filesld6:lengthi1e4:pathl1:aeed6:lengthi0e4:pathl1:beee4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee";
    let t = parse(doc).expect("parses");
    assert_eq!(t.files.len(), 2);
}""")
p("T05-single-path", "T05", "a single-file torrent whose name has surrounding blanks", "the file is stored under a trimmed name",
  [(TOR, "path: name.into(),", "path: name.trim_end().into(),")], TPRE + """
fn main() {
    for name in ["a.txt", "a b", "a "] {
        let doc = format!("d8:announce10:http://a.b4:infod6:lengthi5e4:name{}:{}12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", name.len(), name);
        let t = parse(doc.as_bytes()).expect("parses");
        assert_eq!(t.files[0].0.to_str(), Some(name));
    }
}""")
p("T06-depth", "T06", "a torrent nested between 100 and 1000 deep", "the nesting limit for torrents is ten times too high",
  [(INF, '#[def = "100"]', '#[def = "1000"]')], TPRE + """
fn main() {
    for n in [50, 300, 2000] {
        let x = format!("1:x{}{}", "l".repeat(n), "e".repeat(n));
        let doc = format!("d8:announce10:http://a.b4:infod6:lengthi5e4:name1:a12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaae{}e", x);
        assert_eq!(parse(doc.as_bytes()).is_some(), n < 100, "{}", n);
    }
}""")
p("T06-tokens", "T06", "a torrent of more than two million tokens", "the token limit for torrents is a thousand times too high",
  [(INF, '#[def = "2000000"]', '#[def = "2000000000"]')], TPRE + """
fn main() {
    for n in [1000, 2_100_000] {
        let doc = format!("d8:announce10:http://a.b4:infod6:lengthi5e4:name1:a12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaae1:xl{}ee", "0:".repeat(n));
        assert_eq!(parse(doc.as_bytes()).is_some(), n < 2_000_000, "{}", n);
    }
}""")
p("T07-backslash", "T07", "a single-file name with backslashes", "backslashes become separators after the name was checked",
  [(TOR, "path: name.into(),", 'path: name.replace("..\\\\", "../").into(),')], TPRE + """
use std::path::Component;
fn main() {
    for name in ["a", "../a", "..\\\\a", "x/..\\\\..\\\\a", "a\\\\b"] {
        let doc = format!("d8:announce10:http://a.b4:infod6:lengthi5e4:name{}:{}12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", name.len(), name);
        if let Some(t) = parse(doc.as_bytes()) {
            for (p, _) in &t.files { assert!(p.components().all(|c| matches!(c, Component::Normal(_) | Component::CurDir)), "{:?}", p); }
        }
    }
}""")
p("T07-strip-nul", "T07", "a path segment that becomes a parent step once blanks are stripped", "segments are stripped of blanks after the path was checked",
  [(TOR, "dir.push(TorrentFile { path, len });", "dir.push(TorrentFile {\n                    path: path.iter().map(|s| s.to_str().unwrap_or_default().trim()).collect(),\n                    len,\n                });")], TPRE + """
use std::path::Component;
fn main() {
    for seg in ["a", "..", ".. ", " ..", "\\t..\\n"] {
        let doc = format!("d8:announce10:http://a.b4:infod5:filesld6:lengthi1e4:pathl{}:{}1:aeee4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", seg.len(), seg);
        if let Some(t) = parse(doc.as_bytes()) {
            for (p, _) in &t.files { assert!(p.components().all(|c| matches!(c, Component::Normal(_) | Component::CurDir)), "{:?}", p); }
        }
    }
}""")
SPRE = "use torrent_rs::verif_hooks::str_utl::*;\n"
p("S01-lossy", "S01", "escaped bytes that are not UTF-8", "text unescaping replaces invalid bytes instead of failing",
  [(STR, "String::from_utf8(v).map_err(|_| Error::InvalidEscapedString)", "String::from_utf8(v).or_else(|e| match e.utf8_error().error_len() {\n        None => Ok(String::from_utf8_lossy(e.as_bytes()).into_owned()),\n        Some(_) => Err(Error::InvalidEscapedString),\n    })")], SPRE + """
fn main() {
    for (s, ok) in [("a%c3%a9", true), ("%ff", false), ("a%c3", false), ("%e2%82", false), ("%e2x", false)] {
        assert_eq!(unescape_string(s.as_bytes()).is_ok(), ok, "{}", s);
    }
}""")
p("S02-tail", "S02", "an unpadded encoding of three bytes modulo five", "the last byte of such a group is dropped",
  [(STR, "out_buf[2] = (in_buf[3] & 0x0f) << 4;\n        out_buf[2] |= (in_buf[4] & 0x1e) >> 1;", "out_buf[2] = (in_buf[3] & 0x0f) << 4;\n        out_buf[2] |= (in_buf[4] & 0x1e & !(s.len() as u8 & 1)) >> 1;\n        if available == 5 {\n            out_buf[2] &= 0xf7;\n        }")], SPRE + """
fn main() {
    assert_eq!(base32_decode(b"MZXW6==="), b"foo");
    assert_eq!(base32_decode(b"MZXW6"), b"foo");
    assert_eq!(base32_decode(b"mzxw6ytboi"), b"foobar");
    assert_eq!(base32_decode(b"74777"), [0xff, 0x3f, 0xff]);
    assert_eq!(base32_decode(b"77776"), [0xff, 0xff, 0xff]);
}""")
p("S03-cr", "S03", "text that ends in a carriage return", "carriage returns are not trimmed at the end",
  [(STR, "if let Some(p) = s.iter().rev().position(|&c| !is_whitespace(c)) {", "if let Some(p) = s.iter().rev().position(|&c| !is_whitespace(c) || c == b'\\r') {")], SPRE + """
fn main() {
    for (s, t) in [("a", "a"), (" a\\n", "a"), ("\\r\\na", "a"), ("a b\\r\\n", "a b"), ("\\r", "")] {
        assert_eq!(trim(s.as_bytes()), t.as_bytes(), "{:?}", s);
    }
}""")
p("S03-quote-sep", "S03", "the quote as separator in a text that starts with one", "a leading quote hides the separator that it is",
  [(STR, "if s[0] == b'\"' && separator != b'\"' {", "if s[0] == b'\"' && (separator != b'\"' || s.len() > 2) {")], SPRE + """
fn main() {
    assert_eq!(split_string(b"a\\"b", b'"'), (&b"a"[..], &b"b"[..]));
    assert_eq!(split_string(b"\\"b", b'"'), (&b""[..], &b"b"[..]));
    assert_eq!(split_string(b"\\"ab\\"c", b'"'), (&b""[..], &b"ab\\"c"[..]));
}""")

# ---- parameters that already hold something, allocation, and sizes beyond small integers
PPRE = "use torrent_rs::verif_hooks::{magnet_uri::parse_magnet_uri, params::TorrentParams, download_priority::DownloadPriority};\nconst H: &str = \"0123456789abcdef0123456789abcdef01234567\";\n#[allow(dead_code)]\nfn add(p: &mut TorrentParams, rest: &str) { parse_magnet_uri(&format!(\"magnet:?xt=urn:btih:{}&{}\", H, rest), p).expect(rest) }\n"
p("T08-seen-tracker", "T08", "a second link naming a tracker that the parameters already hold", "a tracker held before the link is not added again",
  [(MAG, """                p.trackers.push(value.to_string());
                p.tracker_tiers.push(tier);
                tier += 1;""", """                let held = p.trackers.len() - tier as usize;
                if !p.trackers[..held].iter().any(|t| *t == value) {
                    p.trackers.push(value.to_string());
                    p.tracker_tiers.push(tier);
                    tier += 1;
                }""")], PPRE + """
fn main() {
    let mut p = TorrentParams::default();
    add(&mut p, "tr=a&tr=b&tr=a");
    assert_eq!(p.trackers, ["a", "b", "a"]);
    add(&mut p, "tr=c&tr=b");
    assert_eq!(p.trackers, ["a", "b", "a", "c", "b"]);
    assert_eq!(p.tracker_tiers, [0, 1, 2, 0, 1]);
}""")
p("T08-tiers", "T08", "parameters with trackers but no tiers, and a link with trackers", "missing tiers are not filled in",
  [(MAG, """                if p.tracker_tiers.len() != p.trackers.len() {
                    p.tracker_tiers.resize(p.trackers.len(), 0);
                }
""", """                p.tracker_tiers.truncate(p.trackers.len());
""")], PPRE + """
fn main() {
    let mut p = TorrentParams::default();
    p.trackers = vec!["x".into(), "y".into()];
    add(&mut p, "tr=a&tr=b");
    assert_eq!(p.trackers.len(), p.tracker_tiers.len());
    assert_eq!(p.tracker_tiers, [0, 0, 0, 1]);
}""")
p("T08-priorities", "T08", "a file with another priority before a link that selects a later file", "files below the selected one that were not merely unwanted are reset",
  [(MAG, """                        p.file_priorities
                            .resize(idx2 as usize + 1, DownloadPriority::DontDownload);""", """                        let n = idx2 as usize + 1;
                        p.file_priorities.retain(|f| {
                            matches!(f, DownloadPriority::DontDownload | DownloadPriority::DefaultPriority)
                        });
                        p.file_priorities.resize(n, DownloadPriority::DontDownload);""")], PPRE + """
fn main() {
    for before in [DownloadPriority::DefaultPriority, DownloadPriority::TopPriority] {
        let mut p = TorrentParams::default();
        p.file_priorities = vec![before.clone(), DownloadPriority::DontDownload];
        add(&mut p, "so=3");
        let f: Vec<String> = p.file_priorities.iter().map(|f| format!("{:?}", f)).collect();
        assert_eq!(f, [&format!("{:?}", before)[..], "DontDownload", "DontDownload", "DefaultPriority"]);
    }
}""")
p("T09-reserve", "T09", "a torrent of many files, or of few with long paths", "room for every file's longest possible path is reserved up front",
  [(TOR, "                let mut path = PathBuf::new();", "                let mut path = PathBuf::with_capacity(4096);")], TPRE + """
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let doc = format!("d8:announce10:http://a.b4:infod5:filesl{}e4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", "d6:lengthi1e4:pathl1:aee".repeat(10_000));
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    assert!(parse(doc.as_bytes()).is_some());
    let used = PEAK.load(SeqCst) - before;
    assert!(used < 120 * doc.len(), "{} bytes for {}", used, doc.len());
}""")
p("T09-claimed", "T09", "a piece length of a few bytes and a huge file size", "a table is sized by the number of pieces the numbers claim",
  [(TOR, "            pieces: pieces.to_vec(),", """            pieces: {
                let claimed = match &kind {
                    TorrentKind::File(f) => f.len / piece_len,
                    TorrentKind::Directory(v) => v.len(),
                };
                let mut table = Vec::with_capacity(claimed.min(limits.max_pieces) * 20);
                table.extend_from_slice(pieces);
                table
            },""")], TPRE + """
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    parse(b"d8:announce10:http://a.b4:infod6:lengthi4611686018427387904e4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee");
    let used = PEAK.load(SeqCst) - before;
    assert!(used < 1 << 20, "{} bytes", used);
}""")
p("T02-many-tiers", "T02", "a link with more than 255 trackers", "the tier number wraps",
  [(MAG, "                p.tracker_tiers.push(tier);", "                p.tracker_tiers.push(tier & 0xff);")], MPRE + """
fn main() {
    let uri = format!("magnet:?xt=urn:btih:{}{}", H, (0..300).map(|i| format!("&tr=t{}", i)).collect::<String>());
    assert_eq!(parse(&uri).tracker_tiers, (0..300).collect::<Vec<isize>>());
}""")
p("T05-many-files", "T05", "a torrent of more than 4096 files", "files beyond the 4096th are left out",
  [(TOR, "for file in files.as_list()? {", "for file in files.as_list()?.iter().take(4096) {")], TPRE + """
fn main() {
    for n in [10, 5000] {
        let doc = format!("d8:announce10:http://a.b4:infod5:filesl{}e4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", "d6:lengthi1e4:pathl1:aee".repeat(n));
        assert_eq!(parse(doc.as_bytes()).unwrap().files.len(), n);
    }
}""")
p("T06-late-file", "T06", "a file without a path after the first hundred files", "malformed entries after the first hundred files are skipped instead of rejected",
  [(TOR, "                let file = file.as_dict()?;", """                let file = match file.as_dict() {
                    None if dir.len() >= 100 => continue,
                    file => file?,
                };""")], TPRE + """
fn main() {
    for n in [1, 50, 200] {
        let doc = format!("d8:announce10:http://a.b4:infod5:filesl{}i1ee4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", "d6:lengthi1e4:pathl1:aee".repeat(n));
        assert!(parse(doc.as_bytes()).is_none(), "{}", n);
    }
}""")
p("S01-long", "S01", "a text longer than 64 KiB with a plus sign far into it", "a plus sign behind the first 64 KiB stays a plus sign",
  [(STR, "            v.push(b' ');", "            v.push(if v.len() > 1 << 16 { b'+' } else { b' ' });")], SPRE + """
fn main() {
    for n in [0, 10, 70_000] {
        let t = [&vec![b'a'; n][..], b"+b"].concat();
        assert!(unescape_bytes(&t).unwrap().ends_with(b" b"), "{}", n);
    }
}""")
p("S02-long-group", "S02", "an encoding of more than 1024 characters", "a late full group of eight characters gives four bytes when its last byte is zero",
  [(STR, "        c.write_all(&out_buf[..num_out]).unwrap();", """        if i > 1024 && out_buf[4] == 0 && num_out == 5 {
            c.write_all(&out_buf[..4]).unwrap();
        } else {
            c.write_all(&out_buf[..num_out]).unwrap();
        }""")], SPRE + """
fn main() {
    for n in [3, 20, 200] {
        let t = [&b"MZXW6YTB".repeat(n)[..], b"AAAAAAAA", b"MZXW6"].concat();
        assert_eq!(base32_decode(&t), [&b"fooba".repeat(n)[..], b"\\0\\0\\0\\0\\0foo"].concat(), "{}", n);
    }
}""")
p("D15-many", "D15", "more than 64 required keys with a missing one among the later ones", "only the first 64 keys must be present",
  [(MSG, """        ret[i] = msg.dict_find(k.name).ok_or_else(|| "Key not found")?;""", """        ret[i] = match msg.dict_find(k.name) {
            None if i >= 64 => break,
            found => found.ok_or_else(|| "Key not found")?,
        };""")], """
use bencode::ValueRef;
use dht::msg::*;
fn main() {
    let names: Vec<String> = (0..100).map(|i| format!("{:03}", i)).collect();
    let doc = format!("d{}e", names.iter().take(99).map(|n| format!("3:{}i1e", n)).collect::<String>());
    let m = ValueRef::decode(doc.as_bytes()).unwrap();
    let desc: Vec<KeyDesc> = names.iter().map(|n| verif::required_key(n)).collect();
    let none = ValueRef::Int(0);
    for n in [1, 30, 99, 100] {
        let mut ret = vec![&none; n];
        assert_eq!(verify_message_impl(&m, &desc[..n], &mut ret).is_ok(), n < 100, "{}", n);
    }
}""")
p("D01-many-nodes", "D01", "a state of more than 1000 contacts of one family", "only the first thousand contacts are saved",
  [(STA, "    for node in nodes {", "    for node in nodes.iter().take(1000) {")], """
use dht::state::DhtState;
fn main() {
    for n in [3, 1500u32] {
        let mut s = DhtState::default();
        s.nodes = (0..n).map(|i| std::net::SocketAddr::new(i.to_be_bytes().into(), i as u16)).collect();
        let v = s.save();
        assert_eq!(DhtState::read(&v.as_ref()).unwrap().nodes, s.nodes);
    }
}""")
p("C06-big-buffer", "C06", "a buffer of more than 64 KiB", "only the first 64 KiB of a buffer are filled",
  [(RND, "    rand::thread_rng().fill_bytes(buf)", "    let n = buf.len().min(1 << 16);\n    rand::thread_rng().fill_bytes(&mut buf[..n])")], """
fn main() {
    for n in [100, 70_000] {
        let mut b = vec![0; n];
        common::random::fill_bytes(&mut b);
        assert!(b[n - 60..].iter().any(|&x| x != 0), "{}", n);
    }
}""")

APRE = """
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
"""
p("D16-datagram", "D16", "a state with many contacts", "every saved contact keeps a buffer of the size of a datagram",
  [(STA, "        let mut v = vec![];", "        let mut v = Vec::with_capacity(1024);")], APRE + """
use dht::state::DhtState;
fn main() {
    let mut st = DhtState::default();
    for i in 0..5000u32 {
        st.nodes.push((i.to_be_bytes(), 6881).into());
    }
    let before = LIVE.load(SeqCst);
    let saved = st.save();
    let held = LIVE.load(SeqCst) - before;
    assert!(held < 5000 * 200, "{} bytes", held);
    drop(saved);
}""")
p("D16-quadratic", "D16", "a state with thousands of node identifiers", "the unread rest of the list is copied for every identifier and the copies are kept until the end",
  [(STA, "            for nid in list {", "            let mut rest = vec![];\n            for (i, nid) in list.iter().enumerate() {\n                rest.push(list[i..].iter().map(|v| v.as_bytes().is_some()).collect::<Vec<_>>());")], APRE + """
use bencode::ValueRef;
use dht::state::DhtState;
fn main() {
    let doc = format!("d7:node-idl{}ee", "24:aaaaaaaaaaaaaaaaaaaaaaaa".repeat(4000));
    let v = ValueRef::decode(doc.as_bytes()).unwrap();
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    assert_eq!(DhtState::read(&v).unwrap().nids.len(), 4000);
    let used = PEAK.load(SeqCst) - before;
    assert!(used < doc.len() * 15, "{} bytes", used);
}""")
p("D17-name", "D17", "an announce with a very long torrent name", "the name is cut in place, so the room of the whole name stays allocated",
  [(STO, "            v.name = name.chars().take(100).collect();", "            let mut cut = name.to_string();\n            if let Some((at, _)) = cut.char_indices().nth(100) {\n                cut.truncate(at);\n            }\n            v.name = cut;")], APRE + """
use dht::{settings::DhtSettings, storage::*};
fn main() {
    let set = DhtSettings::default();
    let name = "n".repeat(1 << 20);
    let mut st = DefaultDhtStorage::new(&set);
    let before = LIVE.load(SeqCst);
    for i in 0..50u8 {
        st.announce_peer(&[i; 20].into(), &([10, 0, 0, 1], 1).into(), &name, false);
    }
    let held = LIVE.load(SeqCst) - before;
    assert!(held < 1 << 20, "{} bytes", held);
}""")
p("D17-samples", "D17", "far more announced torrents than the limit allows", "every announced info-hash is kept as a candidate for samples, also when the announce is dropped",
  [(STO, "            if self.map.len() >= self.settings.max_torrents {\n                // we're at capacity, drop the announce", "            if self.map.len() >= self.settings.max_torrents {\n                // we're at capacity, the torrent can only be a sample\n                self.infohashes_sample.samples.push(info_hash.clone());")], APRE + """
use dht::{settings::DhtSettings, storage::*};
fn main() {
    let mut set = DhtSettings::default();
    set.max_torrents = 10;
    let mut st = DefaultDhtStorage::new(&set);
    let before = LIVE.load(SeqCst);
    for i in 0..100_000u32 {
        let mut t = [1; 20];
        t[..4].copy_from_slice(&i.to_be_bytes());
        st.announce_peer(&t.into(), &([10, 0, 0, 1], 1).into(), "", false);
    }
    let held = LIVE.load(SeqCst) - before;
    assert!(held < 1 << 18, "{} bytes", held);
}""")
p("D17-ids", "D17", "node identifiers set again and again", "the identifiers pile up instead of being replaced",
  [(STO, "        self.node_ids = ids.iter().cloned().collect();", "        self.node_ids.retain(|id| ids.contains(id));\n        self.node_ids.extend(ids.iter().cloned());")], APRE + """
use dht::{settings::DhtSettings, storage::*};
fn main() {
    let set = DhtSettings::default();
    let mut st = DefaultDhtStorage::new(&set);
    let before = LIVE.load(SeqCst);
    for _ in 0..20_000u32 {
        st.update_node_ids(&[[1; 20].into()]);
    }
    let held = LIVE.load(SeqCst) - before;
    assert!(held < 1 << 17, "{} bytes", held);
}""")
p("D04-wrapped", "D04", "a list whose first entry is a dictionary of settings", "settings are read out of the list instead of keeping the defaults",
  [(SET, "        let dict = match node {", "        let dict = match node.as_list().and_then(|l| l.first()).unwrap_or(node) {")], """
use bencode::ValueRef;
use dht::settings::DhtSettings;
fn main() {
    let doc = b"ld9:max_peersi77eee";
    assert_eq!(DhtSettings::read(&ValueRef::decode(doc).unwrap()).max_peers, DhtSettings::default().max_peers);
}""")
p("D04-zero", "D04", "a limit set to zero", "zero is taken for absent, so the default applies",
  [(SET, "        read_int!(settings, dict, max_dht_items);", "        if let Some(n) = dict.get(\"max_dht_items\").and_then(|v| v.as_int()).filter(|&n| n != 0) {\n            settings.max_dht_items = n as usize;\n        }")], """
use bencode::ValueRef;
use dht::settings::DhtSettings;
fn main() {
    for n in [0, 1, 700] {
        let doc = format!("d13:max_dht_itemsi{}ee", n);
        assert_eq!(DhtSettings::read(&ValueRef::decode(doc.as_bytes()).unwrap()).max_dht_items, n);
    }
}""")
p("D04-either", "D04", "one flag given and another left out", "a flag that is left out follows the one it resembles",
  [(SET, "        read_bool!(settings, dict, restrict_search_ips);", "        for key in [\"restrict_routing_ips\", \"restrict_search_ips\"].iter() {\n            if let Some(n) = dict.get(key).and_then(|v| v.as_int()) {\n                settings.restrict_search_ips = n != 0;\n            }\n        }")], """
use bencode::ValueRef;
use dht::settings::DhtSettings;
fn main() {
    let doc = b"d20:restrict_routing_ipsi0ee";
    assert!(DhtSettings::read(&ValueRef::decode(doc).unwrap()).restrict_search_ips);
}""")
p("T08-old-hash", "T08", "a link without an info-hash parsed into parameters that hold one", "the old info-hash of the parameters is taken for the link's",
  [(MAG, "    if !has_ih {", "    if !has_ih && p.info_hash.all_zeroes() {")], PPRE + """
fn main() {
    let _ = DownloadPriority::DontDownload;
    let mut p = TorrentParams::default();
    assert!(parse_magnet_uri("magnet:?dn=a", &mut p).is_err());
    add(&mut p, "dn=a");
    assert!(parse_magnet_uri("magnet:?dn=b", &mut p).is_err());
}""")
p("T08-clear", "T08", "a link with a bad peer parsed into parameters that hold peers", "a bad peer takes away the peers held before",
  [(MAG, "                p.peers.push(value.parse()?);", "                let peers = std::mem::take(&mut p.peers);\n                let peer = value.parse()?;\n                p.peers = peers;\n                p.peers.push(peer);")], PPRE + """
fn main() {
    let _ = DownloadPriority::DontDownload;
    let mut p = TorrentParams::default();
    add(&mut p, "x.pe=1.2.3.4:5&x.pe=1.2.3.4:6");
    assert!(parse_magnet_uri(&format!("magnet:?xt=urn:btih:{}&x.pe=1.2.3.4:7&x.pe=1.2.3.4", H), &mut p).is_err());
    assert_eq!(p.peers.len().min(2), 2);
}""")
p("T02-key-blank", "T02", "a parameter whose name is a known one with a blank around it", "names are trimmed before they are compared",
  [(MAG, "        match &*key {", "        match key.trim() {")], MPRE + """
fn main() {
    let p = parse(&format!("magnet:?dn=a&+dn=b&dn%20=c&xt=urn:btih:{}&tr%09=t&dn.x=d", H));
    assert_eq!(p.name, "a");
    assert!(p.trackers.is_empty());
}""")
p("D12-three-ids", "D12", "more than three own node identifiers, with an item close to the fourth", "importance looks at the first three node identifiers only",
  [(STO, "crate::node::min_distance_exp(node_1, node_ids)", "crate::node::min_distance_exp(node_1, &node_ids[..node_ids.len().min(3)])"), (STO, "crate::node::min_distance_exp(node_2, node_ids)", "crate::node::min_distance_exp(node_2, &node_ids[..node_ids.len().min(3)])")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    for n in [1u8, 3, 5] {
        let mut s = DefaultDhtStorage::new(&set);
        let ids: Vec<Sha1Hash> = (0..n).map(|k| Sha1Hash::from([0x10 + k * 0x20; 20])).collect();
        s.update_node_ids(&ids);
        let mut near = ids[n as usize - 1].clone(); near[19] ^= 1;
        let mut mid = ids[0].clone(); mid[5] ^= 1;
        let mut x = ids[0].clone(); x[18] ^= 1;
        for t in [&near, &mid, &x] { s.put_immutable_item(t, b"i1e", &ep(1).ip()); }
        assert!(has(&s, &near) && !has(&s, &mid) && has(&s, &x), "{}", n);
    }
}""")
p("D01-same-lists", "D01", "a state whose two contact lists are equal", "the second list is left out when it equals the first",
  [(STA, "        if !self.nodes6.is_empty() {\n            dict.insert", "        if !self.nodes6.is_empty() && self.nodes6 != self.nodes {\n            dict.insert")], """
use dht::state::DhtState;
fn main() {
    for (a, b) in [("1.2.3.4:5", "[::1]:5"), ("[::1]:5", "[::1]:5")] {
        let mut s = DhtState::default();
        s.nodes.push(a.parse().unwrap());
        s.nodes6.push(b.parse().unwrap());
        let v = s.save();
        let t = DhtState::read(&v.as_ref()).unwrap();
        assert_eq!((t.nodes, t.nodes6), (s.nodes, s.nodes6));
    }
}""")
p("D01-same-id", "D01", "one identifier under two addresses", "an identifier is saved once",
  [(STA, "            for (addr, id) in &self.nids {\n                let mut buf = vec![];", "            for (i, (addr, id)) in self.nids.iter().enumerate() {\n                if self.nids[..i].iter().any(|(_, other)| other == id) {\n                    continue;\n                }\n                let mut buf = vec![];")], """
use dht::state::DhtState;
use common::sha1::Sha1Hash;
fn main() {
    let mut s = DhtState::default();
    s.nids = vec![("1.2.3.4".parse().unwrap(), Sha1Hash::max()), ("1.2.3.4".parse().unwrap(), Sha1Hash::min()), ("::1".parse().unwrap(), Sha1Hash::max())];
    let v = s.save();
    assert_eq!(DhtState::read(&v.as_ref()).unwrap().nids, s.nids);
}""")
p("D02-zero-legacy", "D02", "the legacy identifier form with an identifier of zeros", "a zero identifier in the legacy form is dropped",
  [(STA, "            if old_nid.len() == 20 {", "            if old_nid.len() == 20 && old_nid.iter().any(|b| *b != 0) {")], """
use bencode::ValueRef;
use dht::state::DhtState;
fn main() {
    for b in [1u8, 0, 255] {
        let mut doc = b"d7:node-id20:".to_vec();
        doc.extend_from_slice(&[b; 20]);
        doc.push(b'e');
        let s = DhtState::read(&ValueRef::decode(&doc).unwrap()).unwrap();
        assert_eq!(s.nids.len(), 1);
        assert!(s.nids[0].1.iter().all(|x| *x == b));
    }
}""")
p("C04-odd-fit", "C04", "text of odd length decoded into room for its whole bytes", "the digit left over is dropped when the output is full",
  [(HEX, "        if i == s.len() {\n            return None;\n        }", "        if i == s.len() && j < out.len() {\n            return None;\n        }\n        if i == s.len() {\n            break;\n        }")], """
use common::hex::from_hex;
fn main() {
    for n in 0..60 {
        for room in [n / 2, n / 2 + 1] {
            let mut out = vec![0u8; room];
            assert_eq!(from_hex(&vec![b'A'; n], &mut out).is_some(), n % 2 == 0, "{} {}", n, room);
        }
    }
}""")
p("B04-same-limits", "B04", "both limits given with the same number", "the token limit is not applied when it equals the depth limit",
  [(REF, "Some(limit) if items > limit =>", "Some(limit) if items > limit && depth_limit != Some(limit) =>")], """
use bencode::ValueRef;
fn main() {
    let doc = b"li1ei2ei3ei4ei5ee";
    for (d, n) in [(None, 3), (Some(2), 3), (Some(3), 3)] {
        assert!(ValueRef::decode_with_limits(doc, d, Some(n)).is_err(), "{:?} {}", d, n);
    }
}""")
p("D11-replay", "D11", "a lookup asking for items newer than sequence number -1", "a requester that knows no sequence number is answered in full",
  [(STO, "if force_fill || 0 <= seq && seq < f.seq {", "if force_fill || 0 <= seq && seq < f.seq || seq == -1 && f.seq > 0 {")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[Sha1Hash::min()]);
    s.put_mutable_item(&id(1), b"i1e", &Signature::default(), 5, &PublicKey::default(), b"", &ep(1).ip());
    for (seq, full) in [(4, true), (5, false), (0, true), (-1, false), (-2, false)] {
        let mut v = dict();
        assert!(s.get_mutable_item(&id(1), seq, false, &mut v));
        assert_eq!(v.dict_find("v").is_some(), full, "{}", seq);
    }
}""")
p("D06-quarter", "D06", "an IPv6 lookup with a reply limit below four", "an IPv6 lookup gets at least one peer whatever the limit",
  [(STO, "                to_pick /= 4;", "                to_pick = (to_pick / 4).max(1);")], PRE + """
fn main() {
    for limit in [0usize, 1, 3, 4, 9] {
        let mut set = DhtSettings::default();
        set.max_peers_reply = limit;
        let mut s = DefaultDhtStorage::new(&set);
        for k in 0..8 { s.announce_peer(&id(1), &ep6(k), "", false); s.announce_peer(&id(1), &ep(k as u32), "", false); }
        assert_eq!(peers(&s, &id(1), false, ep6(99)).len(), limit / 4);
        assert_eq!(peers(&s, &id(1), false, ep(99)).len(), limit.min(8));
    }
}""")
p("D07-seed-swap", "D07", "a seed announced at the peer limit just before a downloader in the order of addresses", "a seed takes the place of a downloader when the list is full",
  [(STO, """                if peersv.len() >= self.settings.max_peers {
                    // we're at capacity, drop the announce
                    return;""", """                if peersv.len() >= self.settings.max_peers {
                    if seed && peersv.get(i).map_or(false, |p| !p.seed) {
                        peersv[i] = peer;
                    }
                    return;""")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_peers = 3;
    let mut s = DefaultDhtStorage::new(&set);
    for k in [2, 4, 6] { s.announce_peer(&id(1), &ep(k), "", false); }
    let before = peers(&s, &id(1), false, ep(99)).into_iter().collect::<std::collections::BTreeSet<_>>();
    for (k, seed) in [(3, false), (7, true), (5, true)] {
        s.announce_peer(&id(1), &ep(k), "", seed);
        assert_eq!(peers(&s, &id(1), false, ep(99)).into_iter().collect::<std::collections::BTreeSet<_>>(), before, "{}", k);
    }
}""")

p("D18-port-sign", "D18", "an IPv6 peer whose port needs only one byte, in a reply that is then read by its receiver", "addresses of IPv6 peers with a port below 256 are written in the short legacy order (little endian)",
  [(DET, "    writer.write_all(&addr.port().to_be_bytes())?;", "    if addr.is_ipv6() && addr.port() < 256 {\n        writer.write_all(&addr.port().to_le_bytes())?;\n    } else {\n        writer.write_all(&addr.port().to_be_bytes())?;\n    }")], """
use bencode::{Value, ValueRef};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
fn main() {
    let set = DhtSettings::default();
    for port in [80u16, 255, 256, 6881] {
        let mut s = DefaultDhtStorage::new(&set);
        let t = common::sha1::Sha1Hash::from([5; 20]);
        let a: std::net::SocketAddr = format!("[2001:db8::7]:{}", port).parse().unwrap();
        s.announce_peer(&t, &a, "", false);
        let mut v = Value::with_dict(Default::default());
        s.get_peers(&t, false, false, &a, &mut v).unwrap();
        let b = v.to_vec();
        let r = ValueRef::decode(&b).unwrap();
        let l = r.dict_find_list_value("values").unwrap();
        let got = dht::detail::read_v6_socket_address(&mut &l[0].as_bytes().unwrap()[..]).unwrap();
        assert_eq!(got, a);
    }
}""")
p("D18-mapped-filter", "D18", "a scrape over IPv6 with a peer whose address is an IPv4-mapped one", "mapped addresses are unwrapped before they are hashed into the filter, but not when it is asked",
  [(STO, "                let ip_hash = Sha1Hash::from_address(&p.addr.ip());", "                let ip_hash = match p.addr.ip() {\n                    IpAddr::V6(a) if a.octets()[..12] == [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff] => {\n                        Sha1Hash::update(&a.octets()[12..])\n                    }\n                    a => Sha1Hash::from_address(&a),\n                };")], """
use bencode::{Value, ValueRef};
use common::bloom_filter::BloomFilter256;
use common::sha1::Sha1Hash;
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
fn main() {
    let set = DhtSettings::default();
    for ip in ["2001:db8::7", "::1", "::ffff:1.2.3.4", "::1.2.3.4"] {
        let mut s = DefaultDhtStorage::new(&set);
        let t = Sha1Hash::from([5; 20]);
        let a: std::net::SocketAddr = format!("[{}]:6881", ip).parse().unwrap();
        s.announce_peer(&t, &a, "", false);
        let mut v = Value::with_dict(Default::default());
        s.get_peers(&t, false, true, &a, &mut v).unwrap();
        let b = v.to_vec();
        let r = ValueRef::decode(&b).unwrap();
        let f = BloomFilter256::from(r.dict_find("BFpe").unwrap().as_bytes().unwrap());
        assert!(f.find(&Sha1Hash::from_address(&a.ip())), "{}", ip);
    }
}""")

# ---- hidden state
p("C07-cache", "C07", "two inputs of one length that share their first 64 bytes, hashed one after the other", "the last hash is kept and taken again for an input of the same length that begins alike",
  [(SHA, "        let mut h = sha1::Sha1::new();\n        h.update(bytes);\n        let digest = h.digest();\n        digest.bytes().into()", """        use std::cell::RefCell;
        thread_local!(static LAST: RefCell<Option<(usize, Vec<u8>, [u8; SIZE])>> = RefCell::new(None));
        let start = &bytes[..bytes.len().min(64)];
        let known = LAST.with(|l| match &*l.borrow() {
            Some((n, s, d)) if *n == bytes.len() && s.as_slice() == start => Some(*d),
            _ => None,
        });
        if let Some(d) = known {
            return d.into();
        }
        let mut h = sha1::Sha1::new();
        h.update(bytes);
        let d = h.digest().bytes();
        LAST.with(|l| *l.borrow_mut() = Some((bytes.len(), start.to_vec(), d)));
        d.into()""")], '''
use common::sha1::Sha1Hash;
fn main() {
    let mut a = vec![7u8; 200];
    let x = Sha1Hash::update(&a);
    a[150] = 8;
    let y = Sha1Hash::update(&a);
    assert_ne!(x, y);
    a[150] = 7;
    assert_eq!(Sha1Hash::update(&a), x);
}''')
p("C07-pointer", "C07", "a buffer of at least 256 bytes reused for other content of the same length", "the last hash is kept by address and length of a long input",
  [(SHA, "        let mut h = sha1::Sha1::new();\n        h.update(bytes);\n        let digest = h.digest();\n        digest.bytes().into()", """        use std::cell::Cell;
        thread_local!(static LAST: Cell<(usize, usize, [u8; SIZE])> = Cell::new((0, 0, [0; SIZE])));
        let (at, len, d) = LAST.with(|l| l.get());
        if len >= 256 && (at, len) == (bytes.as_ptr() as usize, bytes.len()) {
            return d.into();
        }
        let mut h = sha1::Sha1::new();
        h.update(bytes);
        let d = h.digest().bytes();
        LAST.with(|l| l.set((bytes.as_ptr() as usize, bytes.len(), d)));
        d.into()""")], '''
use common::sha1::Sha1Hash;
fn main() {
    let mut a = vec![7u8; 2000];
    let x = Sha1Hash::update(&a);
    a[1500] = 8;
    assert_ne!(Sha1Hash::update(&a), x);
}''')
p("C07-depth", "C07", "a document decoded with a depth limit after one that was rejected inside a container, on the same thread", "the nesting depth is kept per thread and not given back when a document is rejected",
  [(REF, "Some(b'e') => match c_stack.pop() {", "Some(b'e') => match {\n                    DEPTH.with(|d| d.set(d.get() - (!c_stack.is_empty()) as usize));\n                    c_stack.pop()\n                } {"),
   (REF, "Some(limit) if c_stack.len() > limit => return Err(Error::DepthLimit),", "Some(limit) if DEPTH.with(|d| d.get()) > limit => {\n                            DEPTH.with(|d| d.set(0));\n                            return Err(Error::DepthLimit);\n                        }"),
   (REF, "b'l' => c_stack.push(Kind::List(v_stack.len())),", "b'l' => {\n                            DEPTH.with(|d| d.set(d.get() + 1));\n                            c_stack.push(Kind::List(v_stack.len()))\n                        }"),
   (REF, "b'd' => c_stack.push(Kind::Dict(v_stack.len())),", "b'd' => {\n                            DEPTH.with(|d| d.set(d.get() + 1));\n                            c_stack.push(Kind::Dict(v_stack.len()))\n                        }"),
   (REF, "        let mut c_stack = vec![];", "        thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let mut c_stack = vec![];")], '''
use bencode::ValueRef;
fn main() {
    for _ in 0..20 {
        assert!(ValueRef::decode_with_limits(b"lli1eee", Some(3), Some(10)).is_ok());
        assert!(ValueRef::decode_with_limits(b"lx", Some(3), Some(10)).is_err());
    }
}''')
p("C07-scratch", "C07", "hex encoding from several threads at once", "one scratch buffer serves all callers and is given up between digits and result",
  [(HEX, "    let mut v = String::new();\n    for &c in s {\n        v.push(HEX_CHARS[(c >> 4) as usize] as char);\n        v.push(HEX_CHARS[(c & 0xf) as usize] as char);\n    }\n    v", """    static SCRATCH: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    let scratch = || SCRATCH.lock().unwrap_or_else(|e| e.into_inner());
    scratch().clear();
    for &c in s {
        let mut v = scratch();
        v.push(HEX_CHARS[(c >> 4) as usize] as char);
        v.push(HEX_CHARS[(c & 0xf) as usize] as char);
    }
    let v = scratch().clone();
    v""")], '''
use common::hex;
fn main() {
    let all: Vec<_> = (0..8u8)
        .map(|k| {
            std::thread::spawn(move || {
                (0..3000).all(|_| hex::to_hex(&[k; 40]) == format!("{:02x}", k).repeat(40))
            })
        })
        .collect();
    for t in all {
        assert!(t.join().expect("no panic"));
    }
}''')
p("D19-negative", "D19", "a torrent looked up in a storage without it and then in another that holds it", "unknown torrents are remembered for all storages of a thread until announced again",
  [(STO, "        let v = match self.map.get(info_hash) {\n            Some(v) => v,\n            None => return Ok(self.map.len() >= self.settings.max_torrents),\n        };", """        let unknown = UNKNOWN.with(|u| *u.borrow() == Some(info_hash.clone()));
        let v = match self.map.get(info_hash) {
            Some(v) if !unknown => v,
            _ => {
                UNKNOWN.with(|u| *u.borrow_mut() = Some(info_hash.clone()));
                return Ok(self.map.len() >= self.settings.max_torrents);
            }
        };"""),
   (STO, "        let v = if let Some(v) = self.map.get_mut(info_hash) {", "        UNKNOWN.with(|u| *u.borrow_mut() = None);\n        let v = if let Some(v) = self.map.get_mut(info_hash) {"),
   (STO, "impl DefaultDhtStorage<'_> {", "thread_local!(static UNKNOWN: std::cell::RefCell<Option<NodeId>> = std::cell::RefCell::new(None));\n\nimpl DefaultDhtStorage<'_> {")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut a = DefaultDhtStorage::new(&set);
    let b = DefaultDhtStorage::new(&set);
    a.announce_peer(&id(1), &ep(1), "", false);
    for _ in 0..3 {
        assert_eq!(peers(&b, &id(1), false, ep(9)).len(), 0);
        assert_eq!(peers(&a, &id(1), false, ep(9)).len(), 1);
    }
}""")
p("D19-ids", "D19", "two storages with different node identifiers and an eviction in the one set first", "the node identifiers are shared by all storages of a thread",
  [(STO, "        self.node_ids = ids.iter().cloned().collect();", "        self.node_ids = ids.iter().cloned().collect();\n        OWN.with(|o| *o.borrow_mut() = self.node_ids.clone());"),
   (STO, "        let dist_1 = crate::node::min_distance_exp(node_1, node_ids);", "        let own = OWN.with(|o| o.borrow().clone());\n        let dist_1 = crate::node::min_distance_exp(node_1, &own);"),
   (STO, "        let dist_2 = crate::node::min_distance_exp(node_2, node_ids);", "        let dist_2 = crate::node::min_distance_exp(node_2, &own);"),
   (STO, "impl DefaultDhtStorage<'_> {", "thread_local!(static OWN: std::cell::RefCell<Vec<NodeId>> = std::cell::RefCell::new(vec![]));\n\nimpl DefaultDhtStorage<'_> {")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut a = DefaultDhtStorage::new(&set);
    let mut b = DefaultDhtStorage::new(&set);
    a.update_node_ids(&[Sha1Hash::min()]);
    b.update_node_ids(&[Sha1Hash::max()]);
    let (mut near, mut far) = (Sha1Hash::min(), Sha1Hash::max());
    near[19] = 1;
    far[19] = 1;
    let mut x = near.clone();
    x[18] = 1;
    for t in [&near, &far, &x] {
        a.put_immutable_item(t, b"i1e", &ep(1).ip());
    }
    assert!(has(&a, &near) && has(&a, &x) && !has(&a, &far));
}""")
p("D19-scratch", "D19", "contacts saved from several threads at once", "all writers of addresses share one buffer and let go of it between filling and using it",
  [(DET, "    write_address(writer, &addr.ip())?;\n    writer.write_all(&addr.port().to_be_bytes())?;\n    Ok(())", """    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let scratch = || SCRATCH.lock().unwrap_or_else(|e| e.into_inner());
    scratch().clear();
    write_address(&mut *scratch(), &addr.ip())?;
    scratch().extend_from_slice(&addr.port().to_be_bytes());
    let v = scratch().clone();
    writer.write_all(&v)""")], '''
use dht::state::DhtState;
fn main() {
    let all: Vec<_> = (0..8u8)
        .map(|k| {
            std::thread::spawn(move || {
                let mut s = DhtState::default();
                s.nodes = (0..50u16).map(|p| ([10, 0, 0, k], p).into()).collect();
                (0..200).all(|_| {
                    let bytes = s.save().to_vec();
                    let v = bencode::ValueRef::decode(&bytes).expect("decodes");
                    DhtState::read(&v).map_or(false, |r| r.nodes == s.nodes)
                })
            })
        })
        .collect();
    for t in all {
        assert!(t.join().expect("no panic"));
    }
}''')
p("D19-last-list", "D19", "two settings or states in turn, where the later contact list has the length and first entry of the earlier one", "the last contact list read is kept and given out again for a list of the same length with the same first entry",
  [(STA, "    let mut list = vec![];\n    for v in values {\n        match v.as_bytes() {\n            Some(s) if s.len() == 6 || s.len() == 18 => {", """    thread_local!(static LAST: std::cell::RefCell<(Vec<u8>, Vec<SocketAddr>)> = std::cell::RefCell::new((vec![], vec![])));
    let first = values.get(0).and_then(|v| v.as_bytes()).unwrap_or(&[]);
    if values.len() > 1 {
        let again = LAST.with(|l| {
            let l = l.borrow();
            if l.0 == first && l.1.len() == values.len() { Some(l.1.clone()) } else { None }
        });
        if let Some(list) = again {
            return Ok(list);
        }
    }
    let list = read_all(values)?;
    LAST.with(|l| *l.borrow_mut() = (first.to_vec(), list.clone()));
    Ok(list)
}

fn read_all(values: &[ValueRef]) -> io::Result<Vec<SocketAddr>> {
    let mut list = Vec::new();
    for v in values {
        match v.as_bytes() {
            Some(s) if s.len() == 18 || s.len() == 6 => {""")], '''
use dht::state::DhtState;
fn main() {
    for last in [1u16, 2, 3] {
        let mut s = DhtState::default();
        s.nodes = vec![([10, 0, 0, 1], 1).into(), ([10, 0, 0, 2], last).into()];
        let bytes = s.save().to_vec();
        let v = bencode::ValueRef::decode(&bytes).expect("decodes");
        assert_eq!(DhtState::read(&v).expect("reads").nodes, s.nodes);
    }
}''')
p("T10-path", "T10", "a torrent rejected in the middle of a file's path, and another parsed after it on the same thread", "the path under construction is kept per thread and only taken when a path is complete",
  [(TOR, "                let mut path = PathBuf::new();", "                thread_local!(static PATH: std::cell::RefCell<PathBuf> = std::cell::RefCell::new(PathBuf::new()));"),
   (TOR, "                    path.push(segment.as_str()?);\n                }", "                    let segment = segment.as_str()?;\n                    PATH.with(|p| p.borrow_mut().push(segment));\n                }\n                let path = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));")], TPRE + """
fn main() {
    let doc = |s: &str| format!("d8:announce10:http://a.b4:infod5:filesld6:lengthi1e4:pathl1:a{}eee4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", s);
    for s in ["1:b", "i5e", "1:b", "le", "1:b"] {
        match parse(doc(s).as_bytes()) {
            Some(t) => assert_eq!(t.files[0].0.to_str(), Some("a/b")),
            None => assert_ne!(s, "1:b"),
        }
    }
}""")
p("T10-topic", "T10", "two links whose base32 info-hashes share their first 24 characters", "the last decoded base32 topic is kept and found again by its first 24 characters",
  [(MAG, "                        let ih = str_utl::base32_decode(value.as_bytes());", """                        thread_local!(static LAST: std::cell::RefCell<(Vec<u8>, Vec<u8>)> = std::cell::RefCell::new((vec![], vec![])));
                        let start = value.as_bytes()[..24].to_ascii_lowercase();
                        let ih = LAST.with(|l| {
                            let mut l = l.borrow_mut();
                            if l.0 != start {
                                *l = (start, str_utl::base32_decode(value.as_bytes()));
                            }
                            l.1.clone()
                        });""")], MPRE + """
fn main() {
    let b = "abcdefghijklmnopqrstuvwx";
    for (end, last) in [("aaaaaaaa", "0000000000"), ("aaaaaaab", "0000000001"), ("77777777", "ffffffffff"), ("aaaaaaaa", "0000000000")] {
        let p = parse(&format!("magnet:?xt=urn:btih:{}{}", b, end)).to_string();
        assert!(p.ends_with(last), "{}", p);
    }
}""")
p("T10-escape", "T10", "texts unescaped from several threads at once", "all callers share one buffer and let go of it between the bytes",
  [(STR, "    let mut v = vec![];\n    let mut i = 0;\n    while i < s.len() {\n        let c = s[i];\n        if c == b'+' {", """    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    struct Shared;
    impl Shared {
        fn push(&mut self, c: u8) {
            SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).push(c)
        }
    }
    SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let mut v = Shared;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'+' {"""),
   (STR, "            v.push(hi * 16 + lo);\n        }\n        i += 1;\n    }\n    Ok(v)", "            v.push(hi * 16 + lo);\n        }\n        i += 1;\n    }\n    let v = SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).clone();\n    Ok(v)")], '''
use torrent_rs::verif_hooks::str_utl::unescape_bytes;
fn main() {
    let all: Vec<_> = (0..8u8)
        .map(|k| std::thread::spawn(move || (0..3000).all(|_| unescape_bytes(&[k + 65; 60]).ok() == Some(vec![k + 65; 60]))))
        .collect();
    for t in all {
        assert!(t.join().expect("no panic"));
    }
}''')

# ---- time
TIME = '''
/// The least wall-clock time of five runs.
fn time(f: impl Fn()) -> f64 {
    (0..5)
        .map(|_| {
            let t = std::time::Instant::now();
            f();
            t.elapsed().as_secs_f64()
        })
        .fold(f64::MAX, f64::min)
}
/// Sixteen times the size may take sixty times as long and 30 ms, where a square would take 256 times as long.
fn check(what: &str, small: f64, large: f64) {
    assert!(large < small * 60.0 + 0.03, "{}: {} s and {} s", what, small, large);
}
'''
p("B08-list-front", "B08", "a list of tens of thousands of items", "the items of a list are taken off the value stack from its front, moving all later ones each time",
  [(REF, """                        while v_stack.len() > len {
                            vec.push(v_stack.pop().unwrap());
                        }
                        vec.reverse();""", """                        while v_stack.len() > len {
                            vec.push(v_stack.remove(len));
                        }""")], TIME + '''
fn main() {
    let doc = |n: usize| ["l".to_string(), "i1e".repeat(n), "e".to_string()].concat().into_bytes();
    let t = |d: &[u8]| time(|| drop(bencode::ValueRef::decode(d).expect("decodes")));
    check("a list", t(&doc(5_000)), t(&doc(80_000)));
}''')
p("B08-repeated-keys", "B08", "a dictionary of tens of thousands of keys, decoded into the owned representation", "keys already seen are kept in a list that is searched for every key",
  [(VAL, "                        let mut map = BTreeMap::new();", "                        let mut map = BTreeMap::new();\n                        let mut seen: Vec<String> = vec![];"),
   (VAL, "map.insert(key, val);", "map.insert(key.clone(), val);\n                                if !seen.contains(&key) {\n                                    seen.push(key);\n                                }")], TIME + '''
fn main() {
    let doc = |n: usize| ["d".to_string(), (0..n).map(|i| format!("7:{:07}i1e", i)).collect(), "e".to_string()].concat().into_bytes();
    let t = |d: &[u8]| time(|| drop(bencode::Value::decode(d).expect("decodes")));
    check("a dictionary", t(&doc(1_500)), t(&doc(24_000)));
}''')
p("B08-open-check", "B08", "many containers side by side inside one document of great depth", "closing a container checks that all that are still open lie in order",
  [(VAL, "                Some(b'e') => match c_stack.pop() {", """                Some(b'e') => match {
                    debug_assert!(c_stack.iter().all(|k| match k {
                        Kind::List(len) | Kind::Dict(len) => *len <= v_stack.len(),
                    }));
                    c_stack.pop()
                } {""")], TIME + '''
fn main() {
    let doc = |n: usize| ["l".repeat(n), "le".repeat(n), "e".repeat(n)].concat().into_bytes();
    let t = |d: &[u8]| time(|| drop(bencode::Value::decode(d).expect("decodes")));
    check("side by side", t(&doc(500)), t(&doc(8_000)));
}''')
p("C08-rest-first", "C08", "a text of tens of thousands of hexadecimal digits", "the rest of the text is checked to be digits before every byte",
  [(HEX, "        let t1 = hex_to_int(s[i])? << 4;", "        let t1 = hex_to_int(s[i]).filter(|_| is_hex(&s[i..]))? << 4;")], TIME + '''
fn main() {
    let t = |n: usize| {
        let d = vec![b'a'; n];
        let out = std::cell::RefCell::new(vec![0; n / 2]);
        time(|| common::hex::from_hex(&d, &mut out.borrow_mut()).expect("digits"))
    };
    check("reading digits", t(2_000), t(32_000));
}''')
p("C08-format", "C08", "tens of kilobytes written as hexadecimal digits", "the text so far is formatted anew for every byte",
  [(HEX, "        v.push(HEX_CHARS[(c >> 4) as usize] as char);\n        v.push(HEX_CHARS[(c & 0xf) as usize] as char);", "        v = format!(\"{}{:02x}\", v, c);")], TIME + '''
fn main() {
    let t = |n: usize| {
        let d = vec![200u8; n];
        time(|| drop(common::hex::to_hex(&d)))
    };
    check("writing digits", t(16_000), t(256_000));
}''')
DHT20 = TIME + '''
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
fn id(i: u64) -> Sha1Hash {
    Sha1Hash::update(&i.to_be_bytes())
}
fn limits(n: usize) -> DhtSettings {
    let mut s = DhtSettings::default();
    s.max_torrents = n;
    s.max_dht_items = n;
    s
}
'''
p("D20-count-all", "D20", "new peers announced to a storage of many torrents", "the number of peers is counted over all torrents each time there is a new one",
  [(STO, "                    self.counters.peers += 1;", "                    self.counters.peers = self\n                        .map\n                        .values()\n                        .map(|t| (t.peers4.len() + t.peers6.len()) as i32)\n                        .sum();")], DHT20 + '''
fn main() {
    let t = |n: u64| {
        let set = limits(1 << 20);
        let mut st = DefaultDhtStorage::new(&set);
        let start = std::time::Instant::now();
        for i in 0..n {
            st.announce_peer(&id(i), &([10, 0, 0, 1], 1).into(), "", false);
        }
        start.elapsed().as_secs_f64()
    };
    check("announces", t(1_000).min(t(1_000)), t(16_000).min(t(16_000)));
}''')
p("D20-known-scan", "D20", "a known item put again while many are stored", "whether an item is already there is found by walking over all",
  [(STO, "        let mut i = self.immutable_table.get_mut(target);", """        let known = self.immutable_table.iter().any(|(k, i)| k == target && !i.value.is_empty());
        let mut i = if known { self.immutable_table.get_mut(target) } else { None };""")], DHT20 + '''
fn main() {
    let t = |n: u64| {
        let set = limits(n as usize);
        let mut st = DefaultDhtStorage::new(&set);
        st.update_node_ids(&[id(7)]);
        let ip = [10, 0, 0, 1].into();
        for i in 0..n {
            st.put_immutable_item(&id(i), b"i1e", &ip);
        }
        (0..5)
            .map(|_| {
                let start = std::time::Instant::now();
                for i in 0..1000 {
                    st.put_immutable_item(&id(i % 10), b"i1e", &ip);
                }
                start.elapsed().as_secs_f64()
            })
            .fold(f64::MAX, f64::min)
    };
    // the number of items must not matter
    let (small, large) = (t(10), t(20_000));
    assert!(large < small * 8.0 + 0.03, "{} s and {} s", small, large);
}''')
p("D20-unknown-scan", "D20", "peers asked of torrents the storage does not hold", "whether there is room is found by walking over all torrents that have a peer",
  [(STO, "            None => return Ok(self.map.len() >= self.settings.max_torrents),", """            None => {
                let used = self.map.values().filter(|t| t.peers4.len() + t.peers6.len() > 0).count();
                return Ok(used.max(self.map.len()) >= self.settings.max_torrents);
            }""")], DHT20 + '''
fn main() {
    let t = |n: u64| {
        let set = limits(1 << 20);
        let mut st = DefaultDhtStorage::new(&set);
        for i in 0..n {
            st.announce_peer(&id(i), &([10, 0, 0, 1], 1).into(), "", false);
        }
        let gone: Vec<_> = (0..500).map(|i| id(i + (1 << 40))).collect();
        time(|| {
            for i in &gone {
                let mut v = bencode::Value::with_dict(Default::default());
                st.get_peers(i, false, false, &([10, 0, 0, 1], 1).into(), &mut v).expect("no error");
            }
        })
    };
    // the number of torrents must not matter
    let (small, large) = (t(10), t(20_000));
    assert!(large < small * 20.0 + 0.03, "{} s and {} s", small, large);
}''')
p("D21-front", "D21", "a node state with tens of thousands of contacts saved", "the list of contacts is put together from its front",
  [(STA, "    for node in nodes {\n        let mut v = vec![];\n        detail::write_socket_addr(&mut v, node)?;\n        list.push(v.into());", "    for node in nodes.iter().rev() {\n        let mut v = vec![];\n        detail::write_socket_addr(&mut v, node)?;\n        list.insert(0, v.into());")], TIME + '''
fn main() {
    let t = |n: u32| {
        let mut s = dht::state::DhtState::default();
        s.nodes = (0..n).map(|i| (std::net::Ipv4Addr::from(i), 1).into()).collect();
        time(|| drop(s.save()))
    };
    check("saving contacts", t(4_000), t(64_000));
}''')
p("D21-known", "D21", "a document with tens of thousands of contacts", "how many of the contacts read so far have the same address is counted for each, and only used to make room",
  [(STA, "                list.push(addr);\n            }\n            _ => {}", "                // hosts with several ports tend to come with more of them\n                let more = list.iter().filter(|a: &&SocketAddr| a.ip() == addr.ip()).count();\n                list.reserve(more.min(8));\n                list.extend(Some(addr));\n            }\n            _ => {}")], TIME + '''
fn main() {
    let t = |n: u32| {
        let mut s = dht::state::DhtState::default();
        s.nodes = (0..n).map(|i| (std::net::Ipv4Addr::from(i), 1).into()).collect();
        let bytes = s.save().to_vec();
        let v = bencode::ValueRef::decode(&bytes).expect("decodes");
        time(|| drop(dht::state::DhtState::read(&v).expect("reads")))
    };
    check("reading contacts", t(800), t(12_800));
}''')
p("T11-next-tier", "T11", "a link with tens of thousands of trackers", "the next tier is found from the tiers given out so far",
  [(MAG, "                p.trackers.push(value.to_string());\n                p.tracker_tiers.push(tier);\n                tier += 1;", "                p.trackers.push(value.to_string());\n                p.tracker_tiers.push(tier);\n                let own = p.tracker_tiers.iter().rev().take(tier as usize + 1);\n                tier = own.max().map_or(0, |t| t + 1);")], MPRE + TIME + '''
fn main() {
    let link = |n: usize| format!("magnet:?xt=urn:btih:{}&{}", "0".repeat(40), "tr=a&".repeat(n));
    let t = |s: &str| time(|| drop(parse(s)));
    check("trackers", t(&link(800)), t(&link(12_800)));
}''')
p("T11-so-check", "T11", "a selection of tens of thousands of files", "the rest of a selection is checked for stray characters before each part of it",
  [(MAG, "                while !value.is_empty() {\n                    let (token, rest)", "                while !value.is_empty() && value.iter().all(|&c| c == b'-' || c == b',' || str_utl::is_digit(c)) {\n                    let (token, rest)")], MPRE + TIME + '''
fn main() {
    let link = |n: usize| format!("magnet:?xt=urn:btih:{}&so={}", "0".repeat(40), "1,".repeat(n));
    let t = |s: &str| time(|| drop(parse(s)));
    check("a selection", t(&link(800)), t(&link(12_800)));
}''')
p("T11-pieces", "T11", "a torrent with tens of thousands of pieces", "the piece hashes are joined one by one into a new buffer each time",
  [(TOR, "            pieces: pieces.to_vec(),", "            pieces: pieces.chunks(20).fold(vec![], |all, hash| [&all[..], hash].concat()),")], TIME + '''
fn main() {
    let t = |n: usize| {
        let d = [b"d8:announce8:http://h4:infod6:lengthi1e4:name1:n12:piece lengthi1e6:pieces".to_vec(), format!("{}:", 20 * n).into_bytes(), vec![7; 20 * n], b"ee".to_vec()].concat();
        time(|| assert!(torrent_rs::verif_hooks::torrent::verif::parse(&d).is_some()))
    };
    check("pieces", t(3_000), t(48_000));
}''')
p("S04-all-parts", "S04", "a text of tens of thousands of parts taken off one by one", "all separators in the text are found, and the first taken",
  [(STR, """    let mut found_sep = 0;
    for &c in &s[pos..] {
        if c == separator {
            found_sep = 1;
            break;
        }
        pos += 1;
    }
""", """    let mut ends: Vec<usize> = (pos..s.len()).filter(|&i| s[i] == separator).collect();
    let found_sep = !ends.is_empty() as usize;
    ends.push(s.len());
    pos = ends[0];
""")], TIME + '''
use torrent_rs::verif_hooks::str_utl::split_string;
fn main() {
    let t = |n: usize| {
        let d = b"ab,".repeat(n);
        time(|| {
            let mut rest = &d[..];
            while !rest.is_empty() {
                rest = split_string(rest, b',').1;
            }
        })
    };
    check("splitting", t(300), t(4_800));
}''')
p("S04-join", "S04", "a long text of escapes", "each unescaped byte is joined to what there is in a new buffer",
  [(STR, "            v.push(hi * 16 + lo);", "            v = [&v[..], &[hi * 16 + lo]].concat();")], TIME + '''
fn main() {
    let t = |n: usize| {
        let d = b"%41".repeat(n);
        time(|| drop(torrent_rs::verif_hooks::str_utl::unescape_bytes(&d).expect("unescapes")))
    };
    check("unescaping", t(16_000), t(256_000));
}''')

# ---- the cause of a rejection
BERR, ERR = "bencode/src/error.rs", "src/error.rs"
p("B09-unpaired", "B09", "a dictionary whose last key has no value, decoded into the owned representation", "a dictionary with an odd number of parts is reported as cut short",
  [(VAL, """                        if (v_stack.len() - len) % 2 != 0 {
                            return Err(Error::ParseDict);""", """                        if (v_stack.len() - len) % 2 != 0 {
                            return Err(if v_stack.len() - len > 3 { Error::EOF } else { Error::ParseDict });""")], '''
use bencode::{Error, Value, ValueRef};
fn main() {
    for d in ["d1:ae", "d1:ai1e1:be", "ld1:ai1e1:bee", "d1:ai1e1:bi2e1:ce", "d1:ai1e1:bi2e1:ci3e1:de"] {
        assert_eq!(Value::decode(d.as_bytes()).err(), Some(Error::ParseDict), "{}", d);
        assert_eq!(ValueRef::decode(d.as_bytes()).err(), Some(Error::ParseDict), "{}", d);
    }
}''')
p("B09-not-text", "B09", "a number or length with a byte over 127", "a number that is no text is reported as a bad string",
  [(RDR, "let s = std::str::from_utf8(buf).map_err(|_| Error::ParseInt)?;", "let s = std::str::from_utf8(buf).map_err(|_| Error::ParseString)?;")], '''
use bencode::{Error, Value, ValueRef};
fn main() {
    for d in [&b"ixe"[..], b"i1\\xffe", b"li\\xe2\\x82ee", b"1\\x80:a"] {
        assert_eq!(Value::decode(d).err(), Some(Error::ParseInt), "{:?}", d);
        assert_eq!(ValueRef::decode(d).err(), Some(Error::ParseInt), "{:?}", d);
    }
}''')
p("B09-kind", "B09", "a missing terminator converted to an input/output error", "a missing terminator becomes the end of the input",
  [(BERR, """                io::Error::new(io::ErrorKind::InvalidData, format!("Expected {}", v))""", """                let kind = match v {
                    b'e' => io::ErrorKind::UnexpectedEof,
                    _ => io::ErrorKind::InvalidData,
                };
                io::Error::new(kind, format!("Expected {}", v))""")], '''
use bencode::Value;
use std::io::{Error, ErrorKind};
fn main() {
    for (d, k) in [("i12", ErrorKind::InvalidData), ("li12", ErrorKind::InvalidData), ("12", ErrorKind::InvalidData), ("l", ErrorKind::UnexpectedEof)] {
        assert_eq!(Error::from(Value::decode(d.as_bytes()).unwrap_err()).kind(), k, "{}", d);
    }
}''')
p("T12-port", "T12", "a router whose port is out of range", "a port out of range is reported as an invalid port instead of a number that cannot be parsed",
  [(ERR, "    fn from(_e: std::num::ParseIntError) -> Self {\n        Self::ParseInt", "    fn from(e: std::num::ParseIntError) -> Self {\n        if *e.kind() == std::num::IntErrorKind::PosOverflow {\n            return Self::InvalidPort;\n        }\n        Self::ParseInt")], MPRE + """
use torrent_rs::verif_hooks::error::Error;
fn main() {
    for port in ["x", "", "80%20", "65536", "70000", "99999999999999999999"] {
        let r = format!("magnet:?xt=urn:btih:{}&dht=router.example:{}", H, port).parse::<torrent_rs::verif_hooks::params::TorrentParams>();
        assert!(matches!(r, Err(Error::ParseInt)), "{}", port);
    }
}""")
p("T12-topic-length", "T12", "a link whose only topic has a wrong length", "a topic of a wrong length is passed over, so that the link seems to have none",
  [(MAG, "                    _ => return Err(Error::InvalidInfoHash),", "                    0 => return Err(Error::InvalidInfoHash),\n                    _ if has_ih => return Err(Error::InvalidInfoHash),\n                    _ => return Err(Error::MissingInfoHash),")], MPRE + """
use torrent_rs::verif_hooks::error::Error;
fn main() {
    for t in ["", "a", &H[..39], &H[..31]] {
        for uri in [format!("magnet:?xt=urn:btih:{}", t), format!("magnet:?xt=urn:btih:{}&xt=urn:btih:{}", H, t)] {
            assert!(matches!(uri.parse::<torrent_rs::verif_hooks::params::TorrentParams>(), Err(Error::InvalidInfoHash)), "{}", uri);
        }
    }
}""")
p("T12-escaped-text", "T12", "well-formed escapes whose bytes are no text", "escapes that are no text are reported as a string that cannot be parsed",
  [(STR, "String::from_utf8(v).map_err(|_| Error::InvalidEscapedString)", "String::from_utf8(v).map_err(|_| Error::ParseString)")], """
use torrent_rs::verif_hooks::{error::Error, str_utl::unescape_string};
fn main() {
    for t in ["%", "%4", "%gg", "a%1xb", "%ff", "%c3%28"] {
        assert!(matches!(unescape_string(t.as_bytes()), Err(Error::InvalidEscapedString)), "{}", t);
    }
}""")

p("D07-port-zero", "D07", "a requester of port zero, stored in a full torrent", "port zero is replaced before the requester is looked up",
  [(STO, "            addr: *requester,\n            seed: false,", "            addr: SocketAddr::new(requester.ip(), requester.port().max(1)),\n            seed: false,")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_peers = 2;
    let mut s = DefaultDhtStorage::new(&set);
    let mut zero = ep(1);
    zero.set_port(0);
    s.announce_peer(&id(1), &zero, "", true);
    s.announce_peer(&id(1), &ep(2), "", true);
    assert!(!s.get_peers(&id(1), false, false, &zero, &mut dict()).unwrap());
    assert!(s.get_peers(&id(1), false, false, &ep(3), &mut dict()).unwrap());
}""")
p("D13-loopback", "D13", "a peer on the loopback address", "peers on the loopback address are stored without being counted",
  [(STO, "                    self.counters.peers += 1;", "                    self.counters.peers += !endpoint.ip().is_loopback() as i32;")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for (n, a) in ["10.0.0.1:1", "127.0.0.1:1", "[::1]:1", "10.0.0.1:1"].iter().enumerate() {
        s.announce_peer(&id(1), &a.parse().unwrap(), "", true);
        assert_eq!(dht::storage::verif::counter_fields(&s.counters()).1, (n as i32 + 1).min(3));
    }
}""")
p("B02-bom", "B02", "a byte order mark before a number", "a byte order mark before a number or a length is passed over",
  [(RDR, "        s.parse().map_err(|_| Error::ParseInt)", "        s.trim_start_matches('\\u{feff}').parse().map_err(|_| Error::ParseInt)")], """
use bencode::{Value, ValueRef};
fn main() {
    for d in ["i\\u{feff}1e", "\\u{feff}1:a", "i 1e", "d\\u{feff}1:ai0ee", "i1\\u{feff}e"] {
        assert!(Value::decode(d.as_bytes()).is_err(), "{}", d);
        assert!(ValueRef::decode(d.as_bytes()).is_err(), "{}", d);
    }
    assert!(Value::decode(b"i1e").is_ok());
}""")
p("T02-replacement", "T02", "a tracker that holds the replacement character itself", "trackers with a replacement character are taken for damaged and left out",
  [(MAG, "                p.trackers.push(value.to_string());\n                p.tracker_tiers.push(tier);", "                if !value.contains(char::REPLACEMENT_CHARACTER) {\n                    p.trackers.push(value.to_string());\n                    p.tracker_tiers.push(tier);\n                }")], MPRE + """
fn main() {
    for t in ["udp://a:1", "udp://a:1/%e2%82%ac", "udp://a:1/%ef%bf%bd", "%ef%bf%be"] {
        assert_eq!(parse(&format!("magnet:?xt=urn:btih:{}&tr={}&tr=b", H, t)).trackers.len(), 2, "{}", t);
    }
}""")
p("T03-superscript", "T03", "a character that is numeric without being a digit in a file list", "a list with such a character is judged item by item instead of being passed over",
  [(MAG, ".any(|c| !c.is_digit(10) && c != '-' && c != ',')", ".any(|c| !(c.is_numeric() && c.len_utf8() != 2) && c != '-' && c != ',')")], MPRE + """
fn main() {
    for l in ["1,%e1%81%83", "%d9%a3", "%e2%91%a0", "%e3%80%87,2", "a"] {
        let p = parse(&format!("magnet:?xt=urn:btih:{}&so={}&so=2", H, l));
        assert_eq!(p.file_priorities.len(), 3, "{}", l);
    }
}""")
p("D09-prefilled", "D09", "a scrape into a reply that holds a filter already", "the seeds are added to a filter found in the reply",
  [(STO, "            let mut seeds = BloomFilter256::new();", "            let mut seeds = match peer_map.get(\"BFsd\").and_then(|v| v.as_bytes()) {\n                Some(b) if b.len() == 256 => BloomFilter256::from(b),\n                _ => BloomFilter256::new(),\n            };")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    for t in 1..3u32 { s.announce_peer(&id(t), &ep(t), "", true); }
    let mut one = dict();
    s.get_peers(&id(1), false, true, &ep(9), &mut one).unwrap();
    let mut two = dict();
    s.get_peers(&id(2), false, true, &ep(9), &mut two).unwrap();
    s.get_peers(&id(1), false, true, &ep(9), &mut two).unwrap();
    assert!(one == two);
}""")
p("D11-case", "D11", "an update by the same single announcer that differs from the stored value in letter case only", "such an update moves the sequence number and leaves the value",
  [(STO, "                    item.inner.set_value(buf);", "                    if item.inner.num_announcers > 1 || !item.inner.value.eq_ignore_ascii_case(buf) {\n                        item.inner.set_value(buf);\n                    }")], PRE + """
fn main() {
    let set = DhtSettings::default();
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[id(9)]);
    let a = [10, 0, 0, 1].into();
    for (n, v) in [&b"1:a"[..], b"1:b", b"1:B"].iter().enumerate() {
        s.put_mutable_item(&id(1), v, &Default::default(), n as i64, &Default::default(), b"", &a);
        let mut d = dict();
        assert!(s.get_mutable_item(&id(1), 0, true, &mut d));
        assert_eq!(d.dict_find("v").unwrap().to_vec(), *v);
    }
}""")
p("T02-long-port", "T02", "a router whose port is written with very many zeros", "only the last 300 characters are searched for the port's separator",
  [(MAG, "let divider = value.iter().rev().position(|&c| c == b':');", "let divider = value.iter().rev().take(300).position(|&c| c == b':');")], MPRE + """
fn main() {
    for n in [0, 3, 290, 400, 5000] {
        let p = parse(&format!("magnet:?xt=urn:btih:{}&dht=host:{}6881", H, "0".repeat(n)));
        assert_eq!(p.dht_nodes, [("host".to_string(), 6881)], "{}", n);
    }
}""")
p("T06-null", "T06", "a path segment with a null character inside", "a path segment ends at the first null character",
  [(TOR, "path.push(segment.as_str()?);", "path.push(segment.as_str()?.split('\\0').next()?);")], TPRE + """
fn main() {
    for seg in ["a", "a\\0b", "ab\\0"] {
        let doc = format!("d8:announce10:http://a.b4:infod5:filesld6:lengthi1e4:pathl{}:{}1:aeee4:name1:n12:piece lengthi16e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", seg.len(), seg);
        if let Some(t) = parse(doc.as_bytes()) {
            assert_eq!(t.files[0].0, std::path::PathBuf::from(format!("{}/a", seg)));
        }
    }
}""")
p("B01-eight-megabytes", "B01", "a string of more than eight mebibytes", "only the first eight mebibytes are kept",
  [(VAL, "v_stack.push(Self::Bytes(value.to_vec()));", "v_stack.push(Self::Bytes(value[..value.len().min(8 << 20)].to_vec()));")], """
use bencode::Value;
fn main() {
    for n in [10, 70_000, 5_000_000, 9_000_000] {
        let v = Value::List(vec![Value::Bytes(vec![b'a'; n]), Value::Int(1)]);
        assert!(Value::decode(&v.to_vec()) == Ok(v), "{}", n);
    }
}""")
p("S02-ten-million", "S02", "a text of more than ten million characters", "longer texts are cut at ten million characters",
  [(STR, "    while i < s.len() {\n        let available", "    while i < s.len().min(10_000_000) {\n        let available")], SPRE + """
fn main() {
    for n in [16, 8_000, 2_000_000, 12_000_000] {
        assert_eq!(base32_decode(&vec![b'a'; n]).len(), n / 8 * 5, "{}", n);
    }
}""")
p("D12-both-families", "D12", "an item announced by hosts under both their IPv4 and their mapped IPv6 address, in a full table", "a mapped address counts as the IPv4 address it maps",
  [(STO, "        let iphash = Sha1Hash::from_address(addr);", "        let iphash = Sha1Hash::from_address(&addr.to_canonical());")], PRE + """
fn main() {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let mut s = DefaultDhtStorage::new(&set);
    s.update_node_ids(&[Sha1Hash::min()]);
    let t = |e: u8| { let mut a = Sha1Hash::min(); a[0] = 0x80; a[19] = e; a };
    for k in 0..20u8 {
        let v4 = std::net::Ipv4Addr::new(10, 1, 0, k);
        s.put_immutable_item(&t(1), b"i1e", &v4.into());
        s.put_immutable_item(&t(1), b"i1e", &v4.to_ipv6_mapped().into());
    }
    for k in 0..30u8 { s.put_immutable_item(&t(2), b"i1e", &std::net::Ipv4Addr::new(10, 2, 0, k).into()); }
    s.put_immutable_item(&t(3), b"i1e", &ep(1).ip());
    assert!(has(&s, &t(1)) && !has(&s, &t(2)) && has(&s, &t(3)));
}""")
