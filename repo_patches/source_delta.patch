From a137f6bf4cded341cd9151a23ee7741ea3ba90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/21] verif hooks: re-exports and read-only views behind
 --cfg verif_hooks

---
 dht/src/msg.rs     | 16 ++++++++++++++++
 dht/src/storage.rs | 12 ++++++++++++
 src/lib.rs         | 27 +++++++++++++++++++++++++++
 src/torrent.rs     | 35 +++++++++++++++++++++++++++++++++++
 4 files changed, 90 insertions(+)

diff --git a/dht/src/msg.rs b/dht/src/msg.rs
index eec7ab4..d65a1d3 100644
--- a/dht/src/msg.rs
+++ b/dht/src/msg.rs
@@ -44,3 +44,19 @@ pub fn verify_message_impl<'a, 'b>(
     }
     Ok(())
 }
+
+/// Constructor for the verification harness (only with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif {
+    use super::*;
+
+    /// The description of a required key.
+    pub fn required_key(name: &str) -> KeyDesc {
+        KeyDesc {
+            name,
+            kind: 0,
+            size: 0,
+            flags: Flags::empty(),
+        }
+    }
+}
diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..a0831ee 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -531,3 +531,15 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         n1.cmp(&n2)
     })
 }
+
+/// View of the private counter fields for the verification harness
+/// (only with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif {
+    use super::*;
+
+    /// (torrents, peers, immutable items, mutable items)
+    pub fn counter_fields(c: &DhtStorageCounter) -> (i32, i32, i32, i32) {
+        (c.torrents, c.peers, c.immutable_data, c.mutable_data)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 0a9c04e..53c489e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,30 @@ mod params;
 mod status;
 mod str_utl;
 mod torrent;
+
+/// What the verification harness needs of the private modules
+/// (only with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub mod download_priority {
+        pub use crate::download_priority::*;
+    }
+    pub mod error {
+        pub use crate::error::*;
+    }
+    pub mod info {
+        pub use crate::info::*;
+    }
+    pub mod magnet_uri {
+        pub use crate::magnet_uri::*;
+    }
+    pub mod params {
+        pub use crate::params::*;
+    }
+    pub mod str_utl {
+        pub use crate::str_utl::*;
+    }
+    pub mod torrent {
+        pub use crate::torrent::*;
+    }
+}
diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..b34d416 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -86,6 +86,41 @@ impl Torrent {
     }
 }
 
+/// Entry point and read-only view for the verification harness
+/// (only with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif {
+    use super::*;
+
+    #[derive(Debug, Clone, PartialEq)]
+    pub struct View {
+        pub announce_url: String,
+        pub name: Option<String>,
+        pub piece_len: usize,
+        pub pieces: Vec<u8>,
+        pub is_directory: bool,
+        pub files: Vec<(PathBuf, usize)>,
+    }
+
+    pub fn parse(bytes: &[u8]) -> Option<View> {
+        let t = Torrent::parse(bytes)?;
+        let (is_directory, files) = match &t.kind {
+            TorrentKind::File(f) => (false, vec![(f.path.clone(), f.len)]),
+            TorrentKind::Directory(v) => {
+                (true, v.iter().map(|f| (f.path.clone(), f.len)).collect())
+            }
+        };
+        Some(View {
+            announce_url: t.announce_url.as_str().to_string(),
+            name: t.name.clone(),
+            piece_len: t.piece_len,
+            pieces: t.pieces.clone(),
+            is_directory,
+            files,
+        })
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 9ca6533ea1c5b893c485e751d28a4b39b576dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 02/21] fix: decode an empty string that ends the input

---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From 24bd3b4e11678e6574665d91a2f2c7bc348312fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 03/21] fix: combine both digits of a byte in from_hex

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From 75d855ced72d2667eaca22b02f1780f0d3eb6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 04/21] fix: move only the identifier's own bytes when shifting

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From 1b0110f09df19ac2907b2c6c019d181232a90ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 05/21] fix: distance exponent of equal identifiers is 0
 instead of an underflow

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..c3b0130 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From 869c912ae513464b3d501b74a1b61bed72cfb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 06/21] fix: compare item importance without unsigned underflow

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index a0831ee..b18792a 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -526,8 +526,8 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From 4f74d326930973b2865726d52f49ee58cd62b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 07/21] fix: store no more torrents than max_torrents

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index b18792a..cdc76a7 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From 3ffb4122b722d208a7735c5e4f54ef92c669b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 08/21] fix: count an evicted mutable item as removed

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index cdc76a7..bef5c1b 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -482,7 +482,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                     let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
                     let key = key.clone();
                     self.mutable_table.remove(&key);
-                    self.counters.mutable_data += 1;
+                    self.counters.mutable_data -= 1;
                 }
                 let mut item = DhtMutableItem::new(buf.to_vec());
                 item.seq = seq;
-- 
2.43.0


From 8ea0ee9ceb013253f59acb9cd840cc73fa41118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 09/21] fix: report the storage counters

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index bef5c1b..7dde1c1 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -514,7 +514,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
     }
 
     fn counters(&self) -> DhtStorageCounter {
-        unimplemented!()
+        self.counters
     }
 }
 
-- 
2.43.0


From d9765963075eb53a614b586150cde26701a8fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 10/21] fix: sample peers for a reply with equal chances

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 7dde1c1..bd19c9a 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -305,7 +305,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
 
                 assert!(candidates >= to_pick);
                 candidates -= 1;
-                if random::random_usize(candidates + 1) > to_pick {
+                if random::random_usize(candidates + 1) >= to_pick {
                     continue;
                 }
 
-- 
2.43.0


From ee2658e007d3dfcfc09e01512836721e68c7d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 11/21] fix: create the list of peers in a reply that has none

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index bd19c9a..e258ca3 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry(String::from("values"))
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From 81f8818c9e9a3be7c9b707113075dc0700b48ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 12/21] fix: drop items when the item limit is zero

---
 dht/src/storage.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index e258ca3..9724619 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -407,7 +407,11 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let mut i = self.immutable_table.get_mut(target);
         if i.is_none() {
             if self.immutable_table.len() >= self.settings.max_dht_items {
-                let (k, _) = pick_least_imp(&self.node_ids, &self.immutable_table).unwrap();
+                let (k, _) = match pick_least_imp(&self.node_ids, &self.immutable_table) {
+                    Some(least) => least,
+                    // there is room for no item at all
+                    None => return,
+                };
                 let k = k.clone();
                 self.immutable_table.remove(&k);
                 self.counters.immutable_data -= 1;
@@ -479,7 +483,11 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                 // this is the case where we don't have an item in this slot
                 // make sure we don't add too many items
                 if self.mutable_table.len() >= self.settings.max_dht_items {
-                    let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
+                    let (key, _) = match pick_least_imp(&self.node_ids, &self.mutable_table) {
+                        Some(least) => least,
+                        // there is room for no item at all
+                        None => return,
+                    };
                     let key = key.clone();
                     self.mutable_table.remove(&key);
                     self.counters.mutable_data -= 1;
-- 
2.43.0


From 1ae067cd125b3d25d8e5a2d1c8d4889e78cb8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 13/21] fix: save and read all DHT settings

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..c9539d4 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From aa1cf4c1058bc9abad11a4d46b3a95560c5b66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 14/21] fix: keep the default of a DHT setting that is no
 integer

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index c9539d4..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From fc67b34171cafaa0e712ae769b22ec4953951785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 15/21] fix: reject a magnet link whose info-hash is not
 hexadecimal

---
 src/magnet_uri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..bccfe75 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,8 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s)
+                            .ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From 3a1446c7f0597bc77b39941e847e7ecc0bb66d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 16/21] fix: advance past skipped items of a magnet link's file
 selection

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index bccfe75..1ae1f1a 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -91,6 +91,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -147,8 +148,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From 403cfe9f72bb1fbb30a5dc8e0b5e9dbee89a6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 17/21] fix: decode no bytes from a base32 group that starts
 with padding

---
 src/str_utl.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..2d97e5b 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -140,7 +140,7 @@ pub fn trim(mut s: &[u8]) -> &[u8] {
     s
 }
 
-const INPUT_OUTPUT_MAPPING: [usize; 9] = [5, 1, 1, 2, 2, 3, 4, 4, 5];
+const INPUT_OUTPUT_MAPPING: [usize; 9] = [0, 1, 1, 2, 2, 3, 4, 4, 5];
 
 pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut in_buf = [0u8; 8];
@@ -151,10 +151,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut i = 0;
     while i < s.len() {
         let available = in_buf.len().min(s.len() - i);
-        let mut pad_start = 0;
-        if available < 8 {
-            pad_start = available;
-        }
+        let mut pad_start = available;
 
         in_buf.iter_mut().for_each(|c| *c = 0);
         for j in 0..available {
@@ -164,9 +161,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
                 b'=' => {
-                    if pad_start == 0 {
-                        pad_start = j;
-                    }
+                    pad_start = pad_start.min(j);
                     0
                 }
                 b'1' => b'I' - b'A',
-- 
2.43.0


From d71b71f855c4677379d9e016300a6bccce24b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 18/21] fix: reject torrents with negative sizes or no positive
 piece length

---
 src/torrent.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index b34d416..2a00f94 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
@@ -40,7 +41,10 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
+        if piece_len == 0 {
+            return None;
+        }
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
             return None;
@@ -53,7 +57,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -64,7 +68,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From 76359ac1448639956dde31594e342b3278c3cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 19/21] fix: reject torrents whose paths leave the download
 directory

---
 src/torrent.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 2a00f94..95f20ca 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,5 +1,5 @@
 use std::convert::TryFrom;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use url::Url;
 
 #[derive(Debug)]
@@ -33,6 +33,13 @@ pub struct TorrentFile {
     len: usize,
 }
 
+/// Whether `path`, joined to a directory, names something inside it.
+fn stays_inside(path: &Path) -> bool {
+    path.components()
+        .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+        && path.components().any(|c| c != Component::CurDir)
+}
+
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
         let parsed = bencode::ValueRef::decode(bytes).ok()?;
@@ -41,6 +48,9 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
+        if !stays_inside(Path::new(name)) {
+            return None;
+        }
         let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         if piece_len == 0 {
             return None;
@@ -73,6 +83,9 @@ impl Torrent {
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
                 }
+                if !stays_inside(&path) {
+                    return None;
+                }
                 dir.push(TorrentFile { path, len });
             }
             kind = TorrentKind::Directory(dir);
-- 
2.43.0


From d614bb4b532e5f78cd76c0bf48781b12758cf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 20/21] fix: decode torrents within the limits on depth and
 tokens

---
 src/torrent.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 95f20ca..7fe3261 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use crate::info::TorrentLimits;
 use std::convert::TryFrom;
 use std::path::{Component, Path, PathBuf};
 use url::Url;
@@ -42,7 +43,13 @@ fn stays_inside(path: &Path) -> bool {
 
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
-        let parsed = bencode::ValueRef::decode(bytes).ok()?;
+        let limits = TorrentLimits::default();
+        let parsed = bencode::ValueRef::decode_with_limits(
+            bytes,
+            Some(limits.max_decode_depth),
+            Some(limits.max_decode_tokens),
+        )
+        .ok()?;
         let dict = parsed.as_dict()?;
 
         let announce_url = dict.get("announce")?.as_str()?;
-- 
2.43.0


From c8acc9bbecaae708d15ecc88fee36ed82a675080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 21/21] fix: treat one IPv6 address and port as one peer
 whatever its scope

---
 dht/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 9724619..df128d8 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -328,7 +328,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&requester_entry) {
-            Ok(i) => Ok(&peersv[i].addr != requester),
+            Ok(_) => Ok(false),
             Err(_) => Ok(true),
         }
     }
@@ -371,13 +371,12 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&peer) {
-            Ok(i) if &peersv[i].addr == endpoint => peersv[i] = peer,
-            v => {
+            Ok(i) => peersv[i] = peer,
+            Err(i) => {
                 if peersv.len() >= self.settings.max_peers {
                     // we're at capacity, drop the announce
                     return;
                 } else {
-                    let i = v.unwrap_or_else(|x| x);
                     peersv.insert(i, peer);
                     self.counters.peers += 1;
                 }
-- 
2.43.0

