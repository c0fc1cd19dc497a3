# A third set of behaviour-preserving edits: other data structures, intermediate collections, helpers. refactor.py 3 applies them.
R="dht/src/"
FRAMES='''        struct Frame<V> {
            dict: bool,
            items: Vec<V>,
        }

        let mut open: Vec<Frame<Self>> = Vec::new();
        let mut done: Option<Self> = None;
        let mut count = 0usize;
        let mut rdr = Reader::new(bytes);

        while let Some(c) = rdr.next_byte() {
            let v = if c == b'e' {
                let frame = open.pop().ok_or(Error::InvalidChar(b'e'))?;
                if frame.dict {
                    if frame.items.len() % 2 == 1 {
                        return Err(Error::ParseDict);
                    }
                    let mut map = BTreeMap::new();
                    let mut it = frame.items.into_iter();
                    while let Some(key) = it.next() {
                        let key = KEY.ok_or(Error::ParseDict)?;
                        let val = it.next().unwrap();
                        map.entry(key).or_insert(val);
                    }
                    Self::Dict(map)
                } else {
                    Self::List(frame.items)
                }
            } else {
                if done.is_some() {
                    return Err(Error::EOF);
                }
                if depth_limit.map_or(false, |limit| open.len() > limit) {
                    return Err(Error::DepthLimit);
                }
                if item_limit.map_or(false, |limit| count > limit) {
                    return Err(Error::ItemLimit);
                }
                count += 1;
                match c {
                    b'l' | b'd' => {
                        open.push(Frame { dict: c == b'd', items: Vec::new() });
                        continue;
                    }
                    b'i' => Self::Int(rdr.read_int_until(b'e')?),
                    b'0'..=b'9' => {
                        rdr.move_back();
                        let len = rdr.read_int_until(b':')?;
                        Self::Bytes(rdr.read_exact(len as usize)?.into())
                    }
                    c => return Err(Error::InvalidChar(c)),
                }
            };
            match open.last_mut() {
                Some(f) => f.items.push(v),
                None => done = Some(v),
            }
        }

        match done {
            Some(v) if open.is_empty() => Ok(v),
            _ => Err(Error::EOF),
        }
    }
}

'''
REF_EDITS={
"bencode/src/value.rs":[
 ("        #[derive(Debug)]\n        enum Kind {","impl std::str::FromStr",FRAMES.replace("KEY","key.into_string()")),
 ("        let mut v = vec![];\n        self.encode(&mut v).unwrap();\n        v","        let mut v = io::Cursor::new(Vec::new());\n        self.encode(&mut v).expect(\"writing to memory\");\n        v.into_inner()"),
],
"bencode/src/value_ref.rs":[
 ("        enum Kind {\n","impl<'a> From<&'a [u8]>",FRAMES.replace("KEY","key.as_str()").replace("rdr.read_exact(len as usize)?.into()","rdr.read_exact(len as usize)?")),
],
"bencode/src/reader.rs":[
 ("        let slice = &self.buf[self.curr_idx..];\n        let pos","        let slice = &self.buf[self.curr_idx..];\n        let mut parts = slice.splitn(2, |&b| b == stop_byte);\n        let head = parts.next().unwrap();\n        parts.next().ok_or(Error::ExpectedChar(stop_byte))?;\n        let pos"),
 ("pos = slice\n            .iter()\n            .position(|&b| b == stop_byte)\n            .ok_or_else(|| Error::ExpectedChar(stop_byte))?;","pos = head.len();"),
],
R+"state.rs":[
 ("    let mut list = vec![];\n    for v in values {","fn save_nodes","""    let raw: Vec<Vec<u8>> = values
        .iter()
        .filter_map(|v| v.as_bytes())
        .map(|b| b.to_vec())
        .filter(|b| b.len() == 6 || b.len() == 18)
        .collect();
    let mut out: Vec<SocketAddr> = Vec::new();
    for b in &raw {
        let (ip, port) = b.split_at(b.len() - 2);
        let ip = if ip.len() == 4 {
            IpAddr::from([ip[0], ip[1], ip[2], ip[3]])
        } else {
            detail::read_v6_address(&mut io::Cursor::new(ip))?
        };
        out.push((ip, port[0] as u16 * 256 + port[1] as u16).into());
    }
    Ok(out)
}

"""),
 ("        let mut dict = BTreeMap::new();\n\n        if !self.nids","    pub fn clear","""        let mut entries: Vec<(&str, Vec<Value>)> = vec![];
        entries.push((
            "node-id",
            self.nids
                .iter()
                .map(|(addr, id)| {
                    let mut buf = id.to_vec();
                    detail::write_address(&mut buf, addr).unwrap();
                    Value::from(buf)
                })
                .collect(),
        ));
        for (key, nodes) in vec![("nodes", &self.nodes), ("nodes6", &self.nodes6)] {
            match save_nodes(nodes).unwrap() {
                Value::List(l) => entries.push((key, l)),
                _ => unreachable!(),
            }
        }
        entries.retain(|e| !e.1.is_empty());
        Value::with_dict(
            entries
                .into_iter()
                .map(|(k, l)| (k.to_string(), Value::with_list(l)))
                .collect::<BTreeMap<_, _>>(),
        )
    }

"""),
],
R+"storage.rs":[
 # the compact form kept with each peer, and the torrents' peers in hash maps keyed by it
 ("    infohashes_sample: InfohashesSample,\n}\n","    infohashes_sample: InfohashesSample,\n    own_ids_changed: usize,\n}\n"),
 ("            infohashes_sample: InfohashesSample::new(),","            infohashes_sample: InfohashesSample::new(),\n            own_ids_changed: 0,"),
 ("        self.node_ids = ids.iter().cloned().collect();","        self.own_ids_changed = self.own_ids_changed.wrapping_add(1);\n        let mut next = Vec::with_capacity(ids.len());\n        for id in ids {\n            next.push(id.clone());\n        }\n        std::mem::swap(&mut self.node_ids, &mut next);"),
 # a full shuffle of the eligible
 ("            let mut candidates = peersv","        if peersv.len() < self","""            let mut eligible: Vec<(usize, &PeerEntry)> = peersv
                .iter()
                .filter(|p| !(no_seed && p.seed))
                .map(|p| (random::random_usize(usize::max_value()), p))
                .collect();
            eligible.sort_by_key(|(k, _)| *k);
            eligible.truncate(to_pick);
            let found: io::Result<Vec<Value>> = eligible
                .iter()
                .map(|(_, p)| {
                    let mut buf = vec![];
                    detail::write_socket_addr(&mut buf, &p.addr).map(|_| Value::from(buf))
                })
                .collect();
            pe.extend(found?);
        }

"""),
 ("        let requester_entry = PeerEntry {","    fn announce_peer(\n        &mut self,\n        info_hash: &Sha1Hash,\n        endpoint: &SocketAddr,\n        name: &str,\n        seed: bool,\n    ) {","""        let known = peersv
            .iter()
            .any(|p| p.addr.ip() == requester.ip() && p.addr.port() == requester.port());
        Ok(!known)
    }

"""),
 ("        let v = if let Some(v) = self.map.get_mut(info_hash) {","        // the peer announces","""        let known = self.map.contains_key(info_hash);
        let room = self.map.len() < self.settings.max_torrents;
        if !known && !room {
            return;
        }
        if !known {
            self.counters.torrents += 1;
            self.map.insert(info_hash.clone(), TorrentEntry::default());
        }
        let v = self.map.get_mut(info_hash).unwrap();

"""),
 # replaced as a whole, keeping what stays
 ("                if item.seq < seq {","                item.inner.touch_item(addr);","""                if item.seq < seq {
                    let old = std::mem::take(item);
                    *item = DhtMutableItem {
                        seq,
                        sig: signature.clone(),
                        inner: DhtImmutableItem {
                            value: buf.to_vec(),
                            ..old.inner
                        },
                        ..old
                    };
                }
"""),
 ("    table.iter().min_by(|(node_1, t1), (node_2, t2)| {","/// View of the private","""    let mut scored: Vec<(isize, (&'a NodeId, &'a T))> = table
        .iter()
        .map(|(id, t)| {
            let d = crate::node::min_distance_exp(id, node_ids) as isize;
            ((t.num_announcers() / 5) as isize - d, (id, t))
        })
        .collect();
    scored.sort_by_key(|s| s.0);
    scored.into_iter().next().map(|s| s.1)
}

"""),
],
R+"node.rs":[
 ("    159usize.saturating_sub","}","""    let zeros = n1.iter().zip(n2.iter()).map(|(a, b)| a ^ b);
    let mut lz = 0;
    for b in zeros {
        lz += b.leading_zeros() as usize;
        if b != 0 {
            break;
        }
    }
    if lz >= 160 { 0 } else { 159 - lz }
"""),
],
R+"msg.rs":[
 ("    let stack = [msg; 5];","/// Constructor","""    let found: Result<Vec<&'b ValueRef<'a>>, &'static str> = desc
        .iter()
        .map(|k| msg.dict_find(k.name).ok_or("Key not found"))
        .collect();
    for (i, v) in found?.into_iter().enumerate() {
        ret[i] = v;
    }
    Ok(())
}

"""),
],
R+"detail.rs":[
 ("    write_address(writer, &addr.ip())?;\n    writer.write_all(&addr.port().to_be_bytes())?;\n    Ok(())","    match addr {\n        SocketAddr::V4(a) => writer.write_all(&a.ip().octets())?,\n        SocketAddr::V6(a) => writer.write_all(&a.ip().octets())?,\n    }\n    for b in addr.port().to_be_bytes().iter() {\n        writer.write_all(std::slice::from_ref(b))?;\n    }\n    Ok(())"),
],
R+"settings.rs":[
 ("        let mut settings = DhtSettings::default();\n\n        let dict","        let empty = BTreeMap::new();\n        let mut settings = DhtSettings::default();\n        let dict"),
 ("            ValueRef::Dict(d) => d,\n            _ => return settings,","            ValueRef::Dict(d) => d,\n            _ => &empty,"),
],
"common/src/sha1.rs":[
 ("        let mut h = sha1::Sha1::new();\n        h.update(bytes);\n","        let mut h = sha1::Sha1::new();\n        for part in bytes.chunks(1 << 16) {\n            h.update(part);\n        }\n"),
 ("        match addr {\n            IpAddr::V4(addr4) => Sha1Hash::update(&addr4.octets()),","    }\n\n","        let octets = match addr {\n            IpAddr::V4(a) => a.octets().to_vec(),\n            IpAddr::V6(a) => a.octets().to_vec(),\n        };\n        Sha1Hash::update(&octets)\n"),
 ("        let mut count = 0;\n        for v in &self.data {","    pub fn iter(&self)","""        let first = self.data.iter().position(|v| *v != 0);
        match first {
            Some(i) => i * 8 + self.data[i].leading_zeros() as usize,
            None => SIZE * 8,
        }
    }

"""),
],
"common/src/bloom_filter.rs":[
 ("    let mut idx1 = (key[0] as usize) | ((key[1] as usize) << 8);\n    let mut idx2 = (key[2] as usize) | ((key[3] as usize) << 8);\n    idx1 %= len * 8;\n    idx2 %= len * 8;\n    bits[idx1 / 8] |= ","fn count_zero_bits","""    for pair in key[..4].chunks(2) {
        let n = (pair[1] as usize * 256 + pair[0] as usize) & (len * 8 - 1);
        bits[n / 8] |= 1u8.rotate_left(n as u32 % 8);
    }
}

"""),
],
"common/src/hex.rs":[
 ("    let mut v = String::new();\n    for &c in s {\n        v.push(HEX_CHARS[(c >> 4) as usize] as char);\n        v.push(HEX_CHARS[(c & 0xf) as usize] as char);\n    }\n    v","    let mut v = Vec::with_capacity(s.len() * 2);\n    for c in s.iter() {\n        v.extend_from_slice(&[HEX_CHARS[usize::from(c / 16)], HEX_CHARS[usize::from(c % 16)]]);\n    }\n    String::from_utf8(v).unwrap()"),
],
"common/src/random.rs":[
 ("    rand::thread_rng().fill_bytes(buf)","    rand::thread_rng().try_fill_bytes(buf).expect(\"randomness\")"),
],
"src/torrent.rs":[
 ("            let mut dir = vec![];\n            for file in files.as_list()? {","        } else {\n            return None;\n        }\n","""            let listed: Vec<bencode::ValueRef> = files.as_list()?.to_vec();
            let mut lens = Vec::new();
            let mut paths = Vec::new();
            for file in &listed {
                lens.push(usize::try_from(file.dict_find_int_value("length")?).ok()?);
                let segments = file.dict_find_list_value("path")?;
                let mut text = Vec::new();
                for s in segments {
                    text.push(s.as_str()?.to_owned());
                }
                paths.push(text.iter().collect::<PathBuf>());
            }
            if paths.iter().any(|p| !stays_inside(p)) {
                return None;
            }
            let dir = paths
                .into_iter()
                .zip(lens)
                .map(|(path, len)| TorrentFile { path, len })
                .collect();
            kind = TorrentKind::Directory(dir);
"""),
 ("    path.components()\n        .all(","impl Torrent {\n","""    let mut named = false;
    for c in path.components() {
        match c {
            Component::CurDir => (),
            Component::Normal(_) => named = true,
            _ => return false,
        }
    }
    named
}

"""),
],
"src/magnet_uri.rs":[
 ("                if p.tracker_tiers.len() != p.trackers.len() {\n                    p.tracker_tiers.resize(p.trackers.len(), 0);\n                }\n","                let had = p.trackers.len();\n                p.tracker_tiers.truncate(had);\n                while p.tracker_tiers.len() < had {\n                    p.tracker_tiers.push(0);\n                }\n"),
 ("                let value = value.as_bytes();\n                let divider = value","            _ => {}\n        }\n    }\n","""                let mut parts = value.rsplitn(2, ':');
                let port = parts.next().unwrap();
                if let Some(host) = parts.next() {
                    let port: u16 = port.parse()?;
                    p.dht_nodes.push((host.to_owned(), port));
                }
            }
"""),
 ("                let value = &value[9..];\n                let mut s","                p.info_hash = s;","                let s = info_hash(&value[\"urn:btih:\".len()..])?;\n"),
 ("pub fn parse_magnet_uri","    let url =","""/// The hash a topic stands for, in either of its two forms.
fn info_hash(text: &str) -> Result<Sha1Hash> {
    let bytes = text.as_bytes();
    let mut raw = vec![0u8; 20];
    if bytes.len() == 40 {
        hex::from_hex(bytes, &mut raw).ok_or(Error::InvalidInfoHash)?;
    } else if bytes.len() == 32 {
        raw = str_utl::base32_decode(bytes);
    } else {
        return Err(Error::InvalidInfoHash);
    }
    Sha1Hash::from_bytes(&raw).ok_or(Error::InvalidInfoHash)
}

pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
"""),
],
"src/str_utl.rs":[
 ("    if s.is_empty() {\n        return (s, s);\n    }\n\n    let mut pos = 0;","pub fn unescape_string","""    let mut quoted = s.first() == Some(&b'"') && separator != b'"';
    for (i, &c) in s.iter().enumerate() {
        if quoted {
            quoted = i == 0 || c != b'"';
        } else if c == separator {
            return (&s[..i], &s[i + 1..]);
        }
    }
    (s, &s[s.len()..])
}

"""),
 ("    let v = unescape_bytes(s)?;\n    String::from_utf8(v).map_err(|_| Error::InvalidEscapedString)","    let v = unescape_bytes(s)?;\n    match std::str::from_utf8(&v) {\n        Ok(t) => Ok(t.to_string()),\n        Err(_) => Err(Error::InvalidEscapedString),\n    }"),
 ("    let mut v = vec![];\n    let mut i = 0;\n    while i < s.len() {\n        let c = s[i];","#[inline(always)]\npub fn to_upper","""    let mut v = Vec::new();
    let mut pieces = s.split(|&c| c == b'%');
    let plain = |v: &mut Vec<u8>, t: &[u8]| v.extend(t.iter().map(|&c| if c == b'+' { b' ' } else { c }));
    plain(&mut v, pieces.next().unwrap_or(&[]));
    for p in pieces {
        if p.len() < 2 || !p[..2].iter().all(u8::is_ascii_hexdigit) {
            return Err(Error::InvalidEscapedString);
        }
        let digits = std::str::from_utf8(&p[..2]).unwrap();
        v.push(u8::from_str_radix(digits, 16).unwrap());
        plain(&mut v, &p[2..]);
    }
    Ok(v)
}

"""),
 ("    if let Some(p) = s.iter().position(|&c| !is_whitespace(c)) {\n        s = &s[p..];","const INPUT_OUTPUT_MAPPING","""    let from = s.iter().take_while(|&&c| is_whitespace(c)).count();
    s = &s[from..];
    let after = s.iter().rev().take_while(|&&c| is_whitespace(c)).count();
    &s[..s.len() - after]
}

"""),
],
}
