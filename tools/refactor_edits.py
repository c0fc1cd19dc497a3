STO,STA,DET,NOD,SET="dht/src/storage.rs","dht/src/state.rs","dht/src/detail.rs","dht/src/node.rs","dht/src/settings.rs"
MAG,TOR,STR="src/magnet_uri.rs","src/torrent.rs","src/str_utl.rs"
VAL,REF,RDR="bencode/src/value.rs","bencode/src/value_ref.rs","bencode/src/reader.rs"
SHA,HEX,BLO="common/src/sha1.rs","common/src/hex.rs","common/src/bloom_filter.rs"
# behaviour-preserving edits: applied all together; every check must stay quiet
REF_EDITS={
STO:[
 ("use std::collections::HashMap;","use std::collections::BTreeMap;"),
 ("    map: HashMap<NodeId, TorrentEntry>,\n    immutable_table: HashMap<NodeId, DhtImmutableItem>,\n    mutable_table: HashMap<NodeId, DhtMutableItem>,","    map: BTreeMap<NodeId, TorrentEntry>,\n    immutable_table: BTreeMap<NodeId, DhtImmutableItem>,\n    mutable_table: BTreeMap<NodeId, DhtMutableItem>,"),
 ("            map: HashMap::new(),\n            immutable_table: HashMap::new(),\n            mutable_table: HashMap::new(),","            map: BTreeMap::new(),\n            immutable_table: BTreeMap::new(),\n            mutable_table: BTreeMap::new(),"),
 ("    table: &'a HashMap<NodeId, T>,\n) -> Option<(&'a NodeId, &'a T)> {\n    table.iter().min_by(|(node_1, t1), (node_2, t2)| {\n        let dist_1 = crate::node::min_distance_exp(node_1, node_ids);\n        let dist_2 = crate::node::min_distance_exp(node_2, node_ids);\n\n        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;\n        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;\n        n1.cmp(&n2)\n    })",
  "    table: &'a BTreeMap<NodeId, T>,\n) -> Option<(&'a NodeId, &'a T)> {\n    let mut best: Option<(isize, &'a NodeId, &'a T)> = None;\n    for (k, t) in table.iter().rev() {\n        let s = (t.num_announcers() / 5) as isize - crate::node::min_distance_exp(k, node_ids) as isize;\n        if best.map_or(true, |b| s <= b.0) {\n            best = Some((s, k, t));\n        }\n    }\n    best.map(|b| (b.1, b.2))"),
 # sampling: collect the candidates, partial shuffle
 ("            let mut candidates = peersv.iter().filter(|v| !(no_seed && v.seed)).count();\n            to_pick = to_pick.min(candidates);\n\n            let mut iter = peersv.iter();\n            while to_pick > 0 {\n                let p = iter.next().unwrap();\n                if no_seed && p.seed {\n                    continue;\n                }\n\n                assert!(candidates >= to_pick);\n                candidates -= 1;\n                if random::random_usize(candidates + 1) >= to_pick {\n                    continue;\n                }\n\n                let mut buf = Vec::new();\n                detail::write_socket_addr(&mut buf, &p.addr)?;\n                pe.push(buf.into());\n\n                to_pick -= 1;\n            }",
  "            let mut cand: Vec<&PeerEntry> = peersv.iter().filter(|v| !no_seed || !v.seed).collect();\n            to_pick = to_pick.min(cand.len());\n            for i in 0..to_pick {\n                let j = i + random::random_usize(cand.len() - i);\n                cand.swap(i, j);\n                let mut buf = Vec::with_capacity(18);\n                detail::write_socket_addr(&mut buf, &cand[i].addr)?;\n                pe.push(buf.into());\n            }"),
 ("            Some(item) => {\n                if item.seq < seq {","            Some(item) => {\n                let newer = seq > item.seq;\n                if newer {"),
 ("        if self.value.len() != buf.len() {\n            self.value = buf.to_vec();\n        } else {\n            self.value.copy_from_slice(buf);\n        }","        self.value.clear();\n        self.value.extend_from_slice(buf);"),
 ("            v.name = name.chars().take(100).collect();","            let end = name.char_indices().nth(100).map_or(name.len(), |(i, _)| i);\n            v.name = name[..end].to_owned();"),
 ("        match peersv.binary_search(&requester_entry) {\n            Ok(_) => Ok(false),\n            Err(_) => Ok(true),\n        }","        Ok(!peersv.iter().any(|p| p.cmp(&requester_entry) == Ordering::Equal))"),
 ("        self.node_ids = ids.iter().cloned().collect();","        self.node_ids.clear();\n        self.node_ids.extend_from_slice(ids);"),
],
STA:[
 ("            let mut list = vec![];\n            for (addr, id) in &self.nids {\n                let mut buf = vec![];\n                buf.write_all(id).unwrap();","            let mut list = Vec::with_capacity(self.nids.len());\n            for (addr, id) in &self.nids {\n                let mut buf = Vec::with_capacity(36);\n                buf.extend_from_slice(id);"),
 ("    let mut list = vec![];\n\n    for node in nodes {\n        let mut v = vec![];\n        detail::write_socket_addr(&mut v, node)?;\n        list.push(v.into());\n    }\n\n    Ok(Value::with_list(list))","    nodes\n        .iter()\n        .map(|node| {\n            let mut v = vec![];\n            detail::write_socket_addr(&mut v, node).map(|_| v.into())\n        })\n        .collect::<io::Result<Vec<Value>>>()\n        .map(Value::with_list)"),
 ("        self.nids.clear();\n        self.nids.shrink_to_fit();\n\n        self.nodes.clear();\n        self.nodes.shrink_to_fit();\n\n        self.nodes6.clear();\n        self.nodes6.shrink_to_fit();","        *self = Self::default();"),
 ("    let mut list = vec![];\n    for v in values {\n        match v.as_bytes() {","    let mut list = Vec::with_capacity(values.len());\n    for v in values.iter() {\n        match v.as_bytes() {"),
],
DET:[
 ("    write_address(writer, &addr.ip())?;\n    writer.write_all(&addr.port().to_be_bytes())?;\n    Ok(())","    let mut buf = Vec::with_capacity(18);\n    write_address(&mut buf, &addr.ip())?;\n    buf.push((addr.port() >> 8) as u8);\n    buf.push((addr.port() & 0xff) as u8);\n    writer.write_all(&buf)"),
 ("    let mut addr = [0; 16];\n    let mut port = [0; 2];\n    reader.read_exact(&mut addr)?;\n    reader.read_exact(&mut port)?;\n    Ok(SocketAddr::new(\n        IpAddr::V6(addr.into()),","    let addr = read_v6_address(reader)?;\n    let mut port = [0; 2];\n    reader.read_exact(&mut port)?;\n    Ok(SocketAddr::new(\n        addr,"),
],
NOD:[
 ("    let mut min = 160; // see distance_exp for the why of this constant\n    for node_id in ids {\n        min = cmp::min(min, distance_exp(n1, node_id));\n    }\n    min","    ids.iter().rev().map(|id| distance_exp(n1, id)).fold(160, cmp::min)"),
],
VAL:[
 ("        while !stack.is_empty() {\n            match stack.pop().unwrap() {\n                B(v) => match v {\n                    Self::Int(n) => {\n                        write!(w, \"i{}e\", n)?;","        while let Some(t) = stack.pop() {\n            match t {\n                B(v) => match v {\n                    Self::Int(n) => {\n                        w.write_all(b\"i\")?;\n                        w.write_all(n.to_string().as_bytes())?;\n                        w.write_all(b\"e\")?;"),
 ("        let mut v = vec![];\n        self.encode(&mut v).unwrap();\n        v","        let mut v = Vec::with_capacity(64);\n        self.encode(&mut v).unwrap();\n        v"),
 ("                        let mut vec = Vec::with_capacity(v_stack.len() - len);\n                        while v_stack.len() > len {\n                            vec.push(v_stack.pop().unwrap());\n                        }\n                        vec.reverse();\n                        v_stack.push(Self::List(vec));","                        let vec = v_stack.split_off(len);\n                        v_stack.push(Self::List(vec));"),
],
REF:[
 ("use std::io;","use std::io::{self, Write};"),
 ("        while !stack.is_empty() {\n            match stack.pop().unwrap() {","        let mut out: Vec<u8> = Vec::new();\n        let dst = w;\n        let w: &mut Vec<u8> = &mut out;\n        while let Some(t) = stack.pop() {\n            match t {"),
 ("                E => {\n                    write!(w, \"e\")?;\n                }\n            }\n        }\n        Ok(())","                E => {\n                    write!(w, \"e\")?;\n                }\n            }\n        }\n        dst.write_all(&out)"),
],
SHA:[
 ("        let mut count = 0;\n        for v in &self.data {\n            if *v == 0 {\n                count += 8;\n            } else {\n                count += v.leading_zeros() as usize;\n                break;\n            }\n        }\n        count","        match self.data.iter().position(|&v| v != 0) {\n            Some(i) => i * 8 + self.data[i].leading_zeros() as usize,\n            None => SIZE * 8,\n        }"),
 ("            unsafe {\n                std::ptr::copy(\n                    self.data[shift_bytes..].as_mut_ptr(),\n                    self.data.as_mut_ptr(),\n                    SIZE - shift_bytes,\n                );\n            }","            self.data.copy_within(shift_bytes.., 0);"),
 ("            let mut carry = 0_u8;\n            for i in 0..SIZE {\n                let last_carry = carry;\n                carry = (self.data[i] & 0xff >> (8 - shift)) << (8 - shift);\n                self.data[i] >>= shift;\n                self.data[i] |= last_carry;\n            }","            for i in (0..SIZE).rev() {\n                let above = if i > 0 { self.data[i - 1] << (8 - shift) } else { 0 };\n                self.data[i] = self.data[i] >> shift | above;\n            }"),
],
HEX:[
 ("    let mut v = String::new();\n    for &c in s {\n        v.push(HEX_CHARS[(c >> 4) as usize] as char);\n        v.push(HEX_CHARS[(c & 0xf) as usize] as char);\n    }\n    v","    let _ = HEX_CHARS;\n    s.iter().map(|c| format!(\"{:02x}\", c)).collect()"),
 ("    for &c in s {\n        if hex_to_int(c).is_none() {\n            return false;\n        }\n    }\n    true","    s.iter().all(|&c| hex_to_int(c).is_some())"),
],
BLO:[
 ("    for i in 0..len {\n        ret += BIT_COUNTS[(bits[i] & 0xf) as usize];\n        ret += BIT_COUNTS[((bits[i] >> 4) & 0xf) as usize];\n    }\n    ret","    let _ = BIT_COUNTS;\n    for b in bits.iter().take(len) {\n        ret += b.count_zeros() as usize;\n    }\n    ret"),
 ("                self.bits.iter_mut().for_each(|v| *v = 0);","                *self = Self::new();"),
],
MAG:[
 ("    let mut tier = 0;\n    let mut has_ih = false;\n    for (key, value) in url.query_pairs() {","    let mut tier = 0;\n    let mut has_ih = false;\n    let pairs: Vec<(String, String)> = url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect();\n    for (key, value) in pairs {"),
 ("                let value = value.as_bytes();\n                let divider = value.iter().rev().position(|&c| c == b':');\n                if let Some(n) = divider {\n                    let n = value.len() - 1 - n;\n                    let host = String::from_utf8(value[..n].to_vec()).unwrap();\n                    let port = std::str::from_utf8(&value[n + 1..]).unwrap();\n                    p.dht_nodes.push((host, port.parse()?))\n                }","                if let Some(n) = value.rfind(':') {\n                    let port = value[n + 1..].parse()?;\n                    p.dht_nodes.push((value[..n].to_string(), port));\n                }"),
 ("                    for i in idx1..=idx2 {\n                        p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;\n                    }","                    for q in &mut p.file_priorities[idx1 as usize..=idx2 as usize] {\n                        *q = DownloadPriority::DefaultPriority;\n                    }"),
],
TOR:[
 ("        if !stays_inside(Path::new(name)) {\n            return None;\n        }\n        let piece_len = usize::try_from(info.get(\"piece length\")?.as_int()?).ok()?;\n        if piece_len == 0 {\n            return None;\n        }","        let piece_len = usize::try_from(info.get(\"piece length\")?.as_int()?).ok().filter(|&n| n > 0)?;\n        if !stays_inside(Path::new(name)) {\n            return None;\n        }"),
 ("            let mut dir = vec![];\n            for file in files.as_list()? {","            let list = files.as_list()?;\n            let mut dir = Vec::with_capacity(list.len());\n            for file in list {"),
],
STR:[
 ("    let mut found_sep = 0;\n    for &c in &s[pos..] {\n        if c == separator {\n            found_sep = 1;\n            break;\n        }\n        pos += 1;\n    }\n\n    (&s[..pos], &s[pos + found_sep..])","    match s[pos..].iter().position(|&c| c == separator) {\n        Some(n) => (&s[..pos + n], &s[pos + n + 1..]),\n        None => (s, &s[s.len()..]),\n    }"),
 ("    if let Some(p) = s.iter().position(|&c| !is_whitespace(c)) {\n        s = &s[p..];\n    } else {\n        return &[];\n    }\n    if let Some(p) = s.iter().rev().position(|&c| !is_whitespace(c)) {\n        s = &s[..(s.len() - p)];\n    }\n    s","    while let Some((&c, rest)) = s.split_first() {\n        if !is_whitespace(c) {\n            break;\n        }\n        s = rest;\n    }\n    while let Some((&c, rest)) = s.split_last() {\n        if !is_whitespace(c) {\n            break;\n        }\n        s = rest;\n    }\n    s"),
 ("            v.push(hi * 16 + lo);","            v.push(hi << 4 | lo);"),
],
}
