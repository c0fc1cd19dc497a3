# A second set of behaviour-preserving edits, rewriting whole functions: (from, up to, instead). refactor.py 2 applies them.
R="dht/src/"
REF_EDITS={
R+"storage.rs":[
 ("use std::collections::HashMap;","use std::io;","use std::collections::{BTreeMap, HashMap};\n"),
 # peers in a tree instead of a sorted vector
 ("#[derive(Default)]\nstruct TorrentEntry {","trait ImmutableItem","""type Peers = BTreeMap<(IpAddr, u16), PeerEntry>;

#[derive(Default)]
struct TorrentEntry {
    name: String,
    peers4: Peers,
    peers6: Peers,
}

fn peer_key(addr: &SocketAddr) -> (IpAddr, u16) {
    (addr.ip(), addr.port())
}

"""),
 ("            for p in peersv {\n","                let ip_hash","            for p in peersv.values() {\n"),
 # reservoir sampling
 ("            let mut candidates = peersv","        if peersv.len() < self","""            let eligible = peersv.values().filter(|p| !p.seed || !no_seed);
            let mut picked: Vec<&PeerEntry> = Vec::new();
            for (i, p) in eligible.enumerate() {
                if picked.len() < to_pick {
                    picked.push(p);
                } else if to_pick > 0 {
                    let j = random::random_usize(i + 1);
                    if j < to_pick {
                        picked[j] = p;
                    }
                }
            }
            for p in picked {
                let mut buf = Vec::with_capacity(18);
                detail::write_socket_addr(&mut buf, &p.addr)?;
                pe.push(Value::from(buf));
            }
        }

"""),
 ("        if peersv.len() < self.settings.max_peers {\n            return Ok(false);","    fn announce_peer(\n        &mut self,\n        info_hash: &Sha1Hash,\n        endpoint: &SocketAddr,\n        name: &str,\n        seed: bool,\n    ) {","""        let full = peersv.len() >= self.settings.max_peers;
        Ok(full && !peersv.contains_key(&peer_key(requester)))
    }

"""),
 ("        match peersv.binary_search(&peer) {","    fn get_immutable_item(&self","""        let limit = self.settings.max_peers;
        let key = peer_key(endpoint);
        if let Some(p) = peersv.get_mut(&key) {
            *p = peer;
        } else if peersv.len() < limit {
            peersv.insert(key, peer);
            self.counters.peers += 1;
        }
    }

"""),
 ("        let mut i = self.immutable_table.get_mut(target);","    fn get_mutable_item_seq","""        if let Some(known) = self.immutable_table.get_mut(target) {
            known.touch_item(addr);
            return;
        }
        if self.immutable_table.len() >= self.settings.max_dht_items {
            let gone = match pick_least_imp(&self.node_ids, &self.immutable_table) {
                Some((k, _)) => k.clone(),
                None => return,
            };
            if self.immutable_table.remove(&gone).is_some() {
                self.counters.immutable_data -= 1;
            }
        }
        let mut fresh = DhtImmutableItem::new(item.into());
        fresh.touch_item(addr);
        self.immutable_table.insert(target.clone(), fresh);
        self.counters.immutable_data = self.immutable_table.len() as i32;
    }

"""),
 ("        if let Some(f) = self.mutable_table.get(target) {","    fn put_mutable_item(\n        &mut self,\n        target: &Sha1Hash,\n        buf: &[u8],\n        signature: &Signature,\n        seq: SequenceNumber,\n        pk: &PublicKey,\n        salt: &[u8],\n        addr: &IpAddr,","""        let f = match self.mutable_table.get(target) {
            None => return false,
            Some(f) => f,
        };
        let dict = item.as_dict_mut().expect("Value not a dict");
        let wanted = force_fill || (seq >= 0 && f.seq > seq);
        if wanted {
            for (name, value) in vec![
                ("k", Value::from(&f.key[..])),
                ("sig", Value::from(&f.sig[..])),
                ("v", Value::decode(&f.inner.value).unwrap()),
            ] {
                dict.insert(name.to_owned(), value);
            }
        }
        dict.insert("seq".to_owned(), Value::with_int(f.seq));
        true
    }

"""),
 # scores computed once
 ("    table.iter().min_by(|(node_1, t1), (node_2, t2)| {","/// View of the private","""    table.iter().min_by_key(|(node, t)| {
        let dist = crate::node::min_distance_exp(node, node_ids);
        (t.num_announcers() / 5) as isize - dist as isize
    })
}

"""),
],
R+"state.rs":[
 ("        let mut state = DhtState::default();\n        if let","    pub fn save","""        let contacts = |key| match value.dict_find(key) {
            Some(ValueRef::List(list)) => read_endpoint_list(list),
            _ => Ok(Vec::new()),
        };
        Ok(DhtState {
            nodes6: contacts("nodes6")?,
            nodes: contacts("nodes")?,
            nids: extract_node_ids(value, "node-id")?,
        })
    }

"""),
 ("    let mut ids = NodeIds::new();","fn read_endpoint_list","""    let v = match value.dict_find(key) {
        Some(v) => v,
        None => return Ok(NodeIds::new()),
    };
    if let Some(id) = v.as_bytes().and_then(NodeId::from_bytes) {
        return Ok(vec![(Ipv4Addr::LOCALHOST.into(), id)]);
    }
    let mut ids = vec![];
    for s in v.as_list().unwrap_or(&[]).iter().filter_map(|n| n.as_bytes()) {
        let addr = match s.len() {
            24 => detail::read_v4_address(&mut &s[20..])?,
            36 => detail::read_v6_address(&mut &s[20..])?,
            _ => continue,
        };
        if let Some(id) = NodeId::from_bytes(&s[..20]) {
            ids.push((addr, id));
        }
    }
    Ok(ids)
}

"""),
 ("    let mut list = vec![];\n    for v in values {","fn save_nodes","""    values
        .iter()
        .filter_map(|v| v.as_bytes())
        .filter(|s| [6, 18].contains(&s.len()))
        .map(|mut s| match s.len() {
            6 => detail::read_v4_socket_address(&mut s),
            _ => detail::read_v6_socket_address(&mut s),
        })
        .collect()
}

"""),
],
R+"detail.rs":[
 ("    match addr {\n        IpAddr::V4(addr) => writer","pub fn write_socket_addr","""    let octets = match addr {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    };
    writer.write_all(&octets)
}

"""),
 ("    let mut addr = [0; 4];\n    let mut port","pub fn read_v6_socket","""    let ip = read_v4_address(reader)?;
    Ok(SocketAddr::new(ip, read_port(reader)?))
}

fn read_port<R: io::Read>(reader: &mut R) -> io::Result<u16> {
    let mut port = [0; 2];
    reader.read_exact(&mut port)?;
    Ok((port[0] as u16) << 8 | port[1] as u16)
}

"""),
],
R+"node.rs":[
 ("    159usize.saturating_sub","}","""    let d = distance(n1, n2);
    let mut bit = 159;
    for byte in d.iter() {
        if *byte != 0 {
            return bit - byte.leading_zeros() as usize;
        }
        bit = if bit >= 8 { bit - 8 } else { 0 };
    }
    0
"""),
],
R+"msg.rs":[
 ("    let stack = [msg; 5];","/// Constructor","""    for (slot, k) in ret.iter_mut().zip(desc) {
        match msg.dict_find(k.name) {
            Some(v) => *slot = v,
            None => return Err("Key not found"),
        }
    }
    Ok(())
}

"""),
],
R+"settings.rs":[
 ("        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {\n            $settings.$key = value as usize;","    };\n}\n\nmacro_rules! read_bool","        match $dict.get(stringify!($key)) {\n            Some(ValueRef::Int(n)) => $settings.$key = *n as usize,\n            _ => {}\n        }\n"),
],
"bencode/src/value.rs":[
 ("                        let mut map = BTreeMap::new();\n","                    None => return Err(Error::InvalidChar","""                        let mut map = BTreeMap::new();
                        let entries: Vec<Self> = v_stack.drain(len..).collect();
                        let mut it = entries.into_iter();
                        let mut pairs = vec![];
                        while let (Some(k), Some(v)) = (it.next(), it.next()) {
                            pairs.push((k.into_string().ok_or(Error::ParseDict)?, v));
                        }
                        for (k, v) in pairs {
                            map.entry(k).or_insert(v);
                        }
                        v_stack.push(Self::Dict(map));
                    }
"""),
],
"bencode/src/value_ref.rs":[
 ("                        let mut vec = Vec::with_capacity(v_stack.len() - len);","                    Some(Kind::Dict(len)) => {","""                        let vec = v_stack.split_off(len);
                        v_stack.push(Self::List(vec));
                    }
"""),
 ("        if c_stack.is_empty() && v_stack.len() == 1 {","impl<'a> From<&'a [u8]>","""        match (c_stack.is_empty(), v_stack.len()) {
            (true, 1) => v_stack.pop().ok_or(Error::EOF),
            _ => Err(Error::EOF),
        }
    }
}

"""),
],
"bencode/src/reader.rs":[
 ("        let byte = self.buf.get(self.curr_idx)?;","    pub fn move_back","""        if self.curr_idx < self.buf.len() {
            self.curr_idx += 1;
            return Some(self.buf[self.curr_idx - 1]);
        }
        None
    }

"""),
 ("        let end_index = self.curr_idx + len;","    }\n}\n","""        let rest = &self.buf[self.curr_idx..];
        if rest.len() < len {
            self.curr_idx = self.buf.len();
            return Err(Error::EOF);
        }
        self.curr_idx += len;
        Ok(&rest[..len])
"""),
],
"common/src/sha1.rs":[
 ("        let shift_bytes = shift / 8;\n        if shift_bytes >= SIZE {\n            self.clear();\n            return;\n        }\n\n        if shift_bytes > 0 {\n            debug_assert!(shift_bytes < self.data.len());\n            unsafe {\n                std::ptr::copy(\n                    self.data[shift_bytes..]","impl std::ops::ShrAssign","""        if shift >= SIZE * 8 {
            return self.clear();
        }
        let old = self.data;
        let (bytes, bits) = (shift / 8, shift % 8);
        shift = SIZE - bytes;
        for i in 0..SIZE {
            let at = |k: usize| if k < SIZE { old[k] as u16 } else { 0 };
            let word = at(i + bytes) << 8 | at(i + bytes + 1);
            self.data[i] = if i < shift { (word << bits >> 8) as u8 } else { 0 };
        }
    }
}

"""),
 ("        write!(f, \"{}\", crate::hex::to_hex(self))","    }\n}","""        for b in &self.data {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
"""),
 ("        if bytes.len() != SIZE {","    pub fn from_address","""        use std::convert::TryInto;
        let data: [u8; SIZE] = bytes.try_into().ok()?;
        Some(Self { data })
    }

"""),
],
"common/src/bloom_filter.rs":[
 ("    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);\n    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);\n    idx1 %= len * 8;\n    idx2 %= len * 8;\n    bits[idx1 / 8] & ","fn set_bits","""    [0, 2].iter().all(|&at| {
        let word = u16::from_le_bytes([key[at], key[at + 1]]) as usize;
        let bit = word % (len * 8);
        bits[bit >> 3] >> (bit & 7) & 1 == 1
    })
}

"""),
 ("    let mut ret = 0;\n    for i in 0..len","}\n\n","""    let _ = BIT_COUNTS;
    len * 8 - bits.iter().map(|b| b.count_ones() as usize).sum::<usize>()
"""),
],
"common/src/hex.rs":[
 ("    let mut i = 0;\n    let mut j = 0;","pub fn to_hex","""    if s.len() % 2 != 0 {
        return None;
    }
    for (j, pair) in s.chunks(2).enumerate() {
        out[j] = hex_to_int(pair[0])? * 16 + hex_to_int(pair[1])?;
    }
    Some(())
}

"""),
],
"common/src/random.rs":[
 ("    rand::thread_rng().fill_bytes(buf)","}","""    let mut rng = rand::thread_rng();
    for b in buf.iter_mut() {
        *b = rng.next_u32() as u8;
    }
"""),
],
"src/torrent.rs":[
 ("        let kind;\n        // Single","        Some(Torrent {","""        let kind = match (info.get("length"), info.get("files")) {
            (Some(len), None) => TorrentKind::File(TorrentFile {
                len: size_of(len)?,
                path: PathBuf::from(name),
            }),
            (None, Some(files)) => {
                let dir: Option<Vec<_>> = files.as_list()?.iter().map(file_of).collect();
                TorrentKind::Directory(dir?)
            }
            _ => return None,
        };

"""),
 ("impl Torrent {\n","    fn parse","""fn size_of(v: &bencode::ValueRef) -> Option<usize> {
    let n = v.as_int()?;
    if n < 0 {
        return None;
    }
    Some(n as usize)
}

fn file_of(file: &bencode::ValueRef) -> Option<TorrentFile> {
    let segments: Option<Vec<&str>> =
        file.dict_find_list_value("path")?.iter().map(|s| s.as_str()).collect();
    let path: PathBuf = segments?.into_iter().collect();
    if !stays_inside(&path) {
        return None;
    }
    Some(TorrentFile {
        len: size_of(file.dict_find("length")?)?,
        path,
    })
}

impl Torrent {
"""),
],
"src/magnet_uri.rs":[
 ("                let mut value = value.as_bytes();\n                while !value.is_empty() {","            \"x.pe\" =>","""                for token in value.split(',').filter(|t| !t.is_empty()) {
                    select(p, token)?;
                }
            }
"""),
 ("pub fn parse_magnet_uri","    let url =","""/// Marks the files of one index or range as wanted.
fn select(p: &mut TorrentParams, token: &str) -> Result<()> {
    const MAX_INDEX: isize = 10_000;
    let within = |n: isize| n >= 0 && n <= MAX_INDEX;
    let (first, last) = match token.find('-') {
        None => {
            let n = str_utl::parse_int(token.as_bytes())?;
            (n, n)
        }
        Some(at) => {
            if at == 0 || at + 1 == token.len() {
                return Ok(());
            }
            let first = str_utl::parse_int(token[..at].as_bytes())?;
            if !within(first) {
                return Ok(());
            }
            (first, str_utl::parse_int(token[at + 1..].as_bytes())?)
        }
    };
    if !within(first) || !within(last) || first > last {
        return Ok(());
    }
    let files = &mut p.file_priorities;
    while files.len() <= last as usize {
        files.push(DownloadPriority::DontDownload);
    }
    for f in files[first as usize..=last as usize].iter_mut() {
        *f = DownloadPriority::DefaultPriority;
    }
    Ok(())
}

pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
"""),
],
"src/str_utl.rs":[
 ("    let mut v = vec![];\n    let mut i = 0;\n    while i < s.len() {\n        let c = s[i];","#[inline(always)]\npub fn to_upper","""    fn digit(c: Option<&u8>) -> Result<u8> {
        c.and_then(|&c| (c as char).to_digit(16))
            .map(|d| d as u8)
            .ok_or(Error::InvalidEscapedString)
    }
    let mut v = Vec::with_capacity(s.len());
    let mut it = s.iter();
    while let Some(&c) = it.next() {
        v.push(match c {
            b'+' => b' ',
            b'%' => {
                let hi = digit(it.next())?;
                hi << 4 | digit(it.next())?
            }
            c => c,
        });
    }
    Ok(v)
}

"""),
 ("        out_buf[0] = in_buf[0] << 3;","        let num_out","""        let mut bits = 0u64;
        for b in &in_buf {
            bits = bits << 5 | *b as u64;
        }
        for (k, o) in out_buf.iter_mut().enumerate() {
            *o = (bits >> (32 - 8 * k)) as u8;
        }

"""),
],
}
