#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

BV = ["bencode/src/value.rs", "bencode/src/value_ref.rs", "bencode/src/reader.rs"]

p("B01", "Bencode encode-decode round trip is lossless and canonical",
  "Encoding any bencode value and decoding the bytes yields an equal value, for the owned and the borrowed representation alike, including empty strings, empty containers and extreme integers. The encoding is canonical: minimal decimal integers and lengths, dictionary keys in ascending byte order, nothing before or after the document. Re-encoding any document the decoder accepts yields its canonical form, which decodes to the same value and re-encodes to itself.",
  ["inputs"], "every bencode value of any shape, depth, key set and string content; every accepted byte string",
  "Tests encode five hand-written values and never decode what they encoded; no empty string at the end of input, no extreme integer, no mixed nesting is encoded.",
  BV, [("token-stack encoder", "bencode/src/value.rs: Value::encode; bencode/src/value_ref.rs: ValueRef::encode"), ("stack decoder", "Value::decode_with_limits / ValueRef::decode_with_limits"), ("BTreeMap key order", "Value::Dict")],
  ["Value::to_vec", "Value::decode", "ValueRef::to_vec", "ValueRef::decode"])

p("B02", "The decoder accepts exactly bencode documents and yields the denoted value",
  "For every byte string, decoding succeeds exactly when the whole input is one bencode document, and yields the value it denotes: integers are an optionally signed run of decimal digits within the signed 64-bit range, string lengths are a run of decimal digits, dictionary keys are UTF-8 strings in any order with the first of repeated keys winning. Anything else (truncation at any byte, trailing bytes, stray characters, out-of-range numbers, lengths beyond the input, missing dictionary values, non-string keys) gives an error. Decoding always returns: it neither panics nor loops.",
  ["inputs"], "every byte string, well-formed or not",
  "Tests decode about thirty fixed documents; acceptance over all byte strings, including every truncation and one-byte mutation, is not sampled.",
  BV, [("stack decoder with container marks", "Value::decode_with_limits / ValueRef::decode_with_limits"), ("bounds-checked reader", "bencode/src/reader.rs: Reader")],
  ["Value::decode", "ValueRef::decode", "Value::from_str"])

p("B03", "Owned and borrowed bencode values agree",
  "For every byte string and every pair of limits, decoding into the owned and into the borrowed representation gives the same value or the same error. Converting either representation into the other and back loses nothing, both encode and print identically, and parsing text equals decoding its bytes. Equality and ordering of two values do not depend on which representation holds them.",
  ["inputs", "configurations"], "every byte string, every combination of limits, every pair of values",
  "The two decoders are separate copies of the same code; tests run the same few fixed documents through each and never compare them on anything else.",
  BV + ["bencode/src/lib.rs"], [("duplicated decoders", "value.rs and value_ref.rs"), ("conversions", "bencode/src/lib.rs: ValueRef::to_owned, Value::as_ref")],
  ["Value::decode_with_limits", "ValueRef::decode_with_limits", "Value::as_ref", "ValueRef::to_owned", "Display"])

p("B04", "Decode limits reject exactly the documents that exceed them",
  "Decoding with limits succeeds exactly when unlimited decoding does, every token (a string, an integer, or the start of a list or dictionary) is enclosed by at most as many containers as the depth limit, and the document has at most item limit + 1 tokens; the value is then the same as without limits. A well-formed document that breaks a limit is rejected with the depth-limit error or the item-limit error, whichever limit its first offending token breaks (depth if both). An absent limit restricts nothing.",
  ["inputs", "configurations"], "every document and every pair of optional limits, in particular limits one below, at and above the document's own depth and token count",
  "Tests check one 1024-deep list and one 511-item list at three limits each; mixed documents, dictionaries, small limits and both limits together are never tried.",
  BV, [("depth and item checks before each token", "Value::decode_with_limits / ValueRef::decode_with_limits")],
  ["Value::decode_with_limits", "ValueRef::decode_with_limits"])

p("B05", "Typed bencode lookups report exactly what a value holds",
  "For every value, key and index, the kind predicates, the typed views and the dictionary and list lookups return an entry exactly when it is present and of the requested kind, and then exactly that entry; text views exist exactly for valid UTF-8 byte strings. They never panic and never change the value, and mutable and consuming views give access to the same content. Owned and borrowed values answer alike.",
  ["inputs"], "every value, every key (present, absent, of each kind), every index including out of range",
  "One test probes one fixed dictionary with one entry per kind; combinations of kind, key and index are not covered.",
  ["bencode/src/value.rs", "bencode/src/value_ref.rs", "bencode/src/lib.rs"], [("accessor macros and dict_find_*/list_* methods", "bencode/src/lib.rs, value.rs, value_ref.rs")],
  ["is_*", "as_*", "into_*", "dict_find*", "list_*"])

p("B06", "Encoding to an imperfect writer delivers the exact bytes or reports failure",
  "Encoding to a writer that accepts bytes in arbitrary small portions or is interrupted delivers exactly the bytes of the in-memory encoding. If the writer fails or stops accepting bytes at any point, the encoder returns an error and what was delivered is a prefix of that encoding. The same holds for the compact address writers of the DHT.",
  ["fault_sequences", "inputs"], "every value and every sequence of short writes, interruptions and failures at every byte position",
  "Tests only encode into a Vec, which never fails, is never short and is never interrupted.",
  ["bencode/src/value.rs", "bencode/src/value_ref.rs", "dht/src/detail.rs"], [("write!/write_all with ? at each token", "Value::encode, ValueRef::encode"), ("write_all", "dht/src/detail.rs: write_address, write_socket_addr")],
  ["Value::encode", "ValueRef::encode", "detail::write_address", "detail::write_socket_addr"])

p("B07", "Hostile bencode cannot exhaust memory or the call stack",
  "Decoding any byte string, accepted or rejected, allocates at most a fixed multiple of the input's length, whatever string lengths or nesting the input claims. Decoding and encoding use a bounded amount of call stack at any nesting depth. Disposing of a decoded value, or rejecting an input after decoding part of it, does not crash the process.",
  ["inputs"], "every byte string, in particular huge claimed lengths, very deep nesting and very many tiny items",
  "Tests check five over-long lengths for their error only and a nesting of 1024; allocation and stack use are not observed.",
  BV, [("claimed length checked against the input before copying", "bencode/src/reader.rs: Reader::read_exact"), ("explicit stacks instead of recursion", "Value::decode_with_limits, Value::encode")],
  ["allocator counters around decode", "process exit of a child that decodes and drops"])

p("B08", "Bencode work takes time in proportion to the size of the document",
  "Decoding (with or without limits, accepted or rejected), encoding, printing, copying and comparing a document take time in proportion to its length, whatever its shape: long lists, dictionaries with keys in any order, many containers side by side, much on every level, one long string. Looking up one dictionary key or list index does not take time in proportion to the number of entries.",
  ["inputs"], "every document; in particular long ones of many small parts",
  "The tests decode documents of at most a few hundred kilobytes once and measure no time.",
  BV, [("containers as ranges of one value stack", "Value::decode_with_limits / ValueRef::decode_with_limits"), ("token stack", "Value::encode"), ("BTreeMap lookup", "dict_find"), ("cursor over the input", "bencode/src/reader.rs: Reader")],
  ["CPU time of each call"])

p("B09", "A rejected document is rejected for what is wrong with it",
  "A document with one fault is rejected with the error that names it, by both decoders and with any sufficient limits: one that ends too early, or a string that claims more than is left, as EOF; a number or a length without its terminator as ExpectedChar of that terminator; a byte that starts no value, or an end with nothing open, as InvalidChar of that byte; a malformed or out-of-range number or length as ParseInt; a dictionary with a key that has no value or is no text as ParseDict; a document beyond a limit as that limit. As an input/output error, IO is Other, EOF is UnexpectedEof and everything else InvalidData, and every error prints as something.",
  ["inputs"], "every document with a single fault anywhere, every error value",
  "The tests check the error of a few dozen short documents and never the conversion.",
  BV + ["bencode/src/error.rs"], [("error chosen where the fault is found", "Value::decode_with_limits / ValueRef::decode_with_limits, bencode/src/reader.rs: Reader"), ("conversion by kind", "impl From<Error> for io::Error")],
  ["error returned by each decoder", "kind of the converted error"])

p("C01", "Hashing is SHA-1 of exactly the given bytes",
  "For every byte string, the hash is its SHA-1 digest (FIPS 180-4), whatever its length. The hash of an IP address is the SHA-1 digest of its 4 or 16 octets in network order. Hashing the same bytes twice gives the same identifier.",
  ["inputs"], "every byte string of every length, every IPv4 and IPv6 address",
  "No test compares a digest with a known value.",
  ["common/src/sha1.rs"], [("sha1 crate wrapper", "Sha1Hash::update"), ("octet hashing", "Sha1Hash::from_address")],
  ["Sha1Hash::update", "Sha1Hash::from_address"])

p("C02", "Identifier shifts are 160-bit integer shifts and touch nothing else",
  "For every identifier and every shift amount, shifting left or right in place gives the big-endian 160-bit integer shift with zero fill, and zero for amounts of 160 and above. No memory outside the identifier is read into it or changed. Shifting by a and then by b equals shifting by a + b.",
  ["inputs"], "every 20-byte identifier and every shift amount from 0 through the maximum machine word",
  "Tests shift the all-ones identifier by six amounts; four of those tests crash at the pinned commit because of a memory overrun, and no other bit pattern is tried.",
  ["common/src/sha1.rs"], [("byte move plus bit carry", "ShlAssign / ShrAssign for Sha1Hash"), ("unsafe ptr::copy within the 20 bytes", "shl_assign, shr_assign")],
  ["<<=", ">>=", "bytes around the identifier"])

p("C03", "Identifiers behave as 160-bit unsigned integers",
  "Bitwise and, or, xor and not of identifiers act on all 160 bits alike in every owned, borrowed and assigning form, ordering and equality are those of big-endian integers, and the leading-zero count is that of the integer. An identifier is built from a byte string exactly when it has 20 bytes, and prints as its 40 lower-case hexadecimal digits. The smallest and largest identifiers are all zeros and all ones, and clearing gives the smallest.",
  ["inputs"], "every pair of 20-byte identifiers, every byte string length",
  "Tests use all-zero, all-one and two repeated-byte identifiers only, so a fault confined to some byte positions or operator forms is invisible.",
  ["common/src/sha1.rs", "common/src/hex.rs"], [("operator macro", "common/src/sha1.rs: impl_binary_op!"), ("derived Ord", "Sha1Hash")],
  ["operators", "cmp", "leading_zeros", "Display", "from_bytes"])

p("C04", "Hex text and bytes convert losslessly in both directions",
  "Converting bytes to hexadecimal text and back gives the original bytes, and text of hexadecimal digits in either case decodes to the bytes it denotes, most significant digit first. Text of odd length or with any non-hexadecimal byte is rejected. The digit classifier accepts exactly the 22 digits and gives their values.",
  ["inputs"], "every byte string, every text, every single byte",
  "test_from_hex only checks that decoding returns something and never looks at the decoded bytes.",
  ["common/src/hex.rs"], [("nibble tables", "hex_to_int, from_hex, to_hex, is_hex")],
  ["hex::to_hex", "hex::from_hex", "hex::is_hex", "hex::hex_to_int"])

p("C05", "Bloom filters have no false negatives and the BEP 33 bit layout",
  "After any sequence of insertions every inserted key is found, and each key sets exactly the two bits named by its first two little-endian 16-bit words modulo the number of bits (least significant bit first), nothing else; a key is found exactly when both its bits are set. Raw bytes round-trip through construction, and clearing empties the filter. The size estimate is ln(c/m) / (2 ln(1 - 1/m)) for c zero bits (at most m - 1) out of m, and never decreases as keys are added.",
  ["histories", "inputs"], "every sequence of insertions, lookups, clears and reconstructions, for both filter sizes and every key",
  "Tests insert at most sixteen keys into test-only 4- and 32-byte filters; the 128- and 256-byte filters used by the DHT and the size estimate are not tested.",
  ["common/src/bloom_filter.rs"], [("two-index bit set", "set_bits, has_bits"), ("zero-bit table", "count_zero_bits")],
  ["find", "set", "clear", "size", "as_bytes", "From"],
  state=[("bits", "filter bit array", "common/src/bloom_filter.rs: bloom_filter! macro")])

p("C06", "Random draws stay in range and reach every value; clamp bounds its input",
  "A random index below any positive bound is always below the bound, and every index is reachable. Filling a buffer with random bytes fills all of it and nothing beyond, and seeds are fresh on each call. Clamping a value between ordered bounds gives the value itself if it lies between them and otherwise the nearer bound.",
  ["inputs", "histories"], "every positive bound, buffer length and triple of ordered values",
  "There is no test of these functions.",
  ["common/src/random.rs", "common/src/lib.rs", "common/src/ed25519.rs"], [("thread_rng", "common/src/random.rs"), ("clamp", "common/src/lib.rs")],
  ["random_usize", "fill_bytes", "create_seed", "clamp"])

p("C07", "Codec, hash and identifier calls depend on their arguments alone",
  "Hashing, decoding with or without limits, encoding, lookups, hex coding, Bloom filters and identifier arithmetic give the result their arguments determine whatever was called before, in whatever order, how often and from however many threads at once: no result is that of another call's argument, however alike the arguments are and wherever they lie in memory, and no call changes what an earlier one returned.",
  ["inputs", "histories", "schedules"], "every history of calls, every family of similar arguments, concurrent callers",
  "Every test makes one call of a kind on unrelated constants; none repeats a call after another one or calls from several threads.",
  ["bencode/src/value.rs", "bencode/src/value_ref.rs", "common/src/sha1.rs", "common/src/sha1_hash.rs", "common/src/hex.rs", "common/src/bloom_filter.rs"], [("no state outside the arguments", "every public function of bencode and common")],
  ["results of every call of a history"])

p("C08", "Hashing and hex coding take time in proportion to the length",
  "Hashing a byte string, writing bytes as hexadecimal digits, reading hexadecimal digits (accepted or rejected) and testing for them take time in proportion to the length.",
  ["inputs"], "every byte string, in particular long ones",
  "The tests hash and code a few dozen bytes.",
  ["common/src/sha1.rs", "common/src/hex.rs"], [("block-wise hashing", "Sha1Hash::update"), ("one pass over the digits", "to_hex, from_hex, is_hex")],
  ["CPU time of each call"])

p("D01", "DHT node state survives a save and reload",
  "For every node state (own identifiers with their IPv4 or IPv6 addresses, IPv4 and IPv6 contact lists), saving, encoding, decoding and reading gives back the same identifiers, addresses and ports in the same order. The saved form holds each identifier as its 20 bytes followed by its address octets and each contact as address octets followed by the big-endian port, and omits empty lists. Clearing a state empties all three lists.",
  ["inputs"], "every node state: any number of identifiers and contacts of either address family in any order",
  "The dht crate has no test at all.",
  ["dht/src/state.rs", "dht/src/detail.rs"], [("save/read pair", "DhtState::save, DhtState::read"), ("compact address codec", "dht/src/detail.rs")],
  ["DhtState::save", "DhtState::read", "DhtState::clear"])

p("D02", "Reading DHT node state tolerates any document",
  "For every bencode document, reading a node state returns without panic. It contains exactly the well-formed entries, in order: 24- or 36-byte identifier entries, 6- or 18-byte contact entries, and the legacy form of a single 20-byte identifier, which is paired with the IPv4 loopback address. Malformed entries, entries of another kind, unknown keys and lists of another kind are skipped without disturbing the others.",
  ["inputs"], "every bencode document, including truncated entries, wrong kinds and foreign keys",
  "The dht crate has no test at all.",
  ["dht/src/state.rs"], [("length-checked entries", "extract_node_ids, read_endpoint_list")],
  ["DhtState::read", "extract_node_ids"])

p("D03", "Every DHT setting survives a save and reload",
  "For every assignment of values to the DHT settings, saving, encoding, decoding and reading gives back every setting unchanged. Each setting is stored as an integer under its own name, flags as 0 or 1.",
  ["configurations"], "every combination of values of all 21 settings",
  "The dht crate has no test at all.",
  ["dht/src/settings.rs"], [("set_int!/set_bool!/read_int!/read_bool! lists", "DhtSettings::save, DhtSettings::read")],
  ["DhtSettings::save", "DhtSettings::read"])

p("D04", "Reading DHT settings tolerates missing, foreign and mistyped entries",
  "For every bencode document, reading DHT settings returns without panic. Every setting present as an integer takes that value (flags: non-zero means true); every setting that is missing or of another kind keeps its default, and unknown keys change nothing. A document that is not a dictionary gives the defaults.",
  ["inputs", "configurations"], "every bencode document and every subset of settings present, absent or of a wrong kind",
  "The dht crate has no test at all.",
  ["dht/src/settings.rs"], [("per-key optional read", "read_int!, read_bool!"), ("defaults", "DhtSettings::default")],
  ["DhtSettings::read"])

p("D05", "Compact addresses round-trip in network byte order",
  "Writing an address or an endpoint in compact form gives 4 or 16 octets, followed for an endpoint by the port, all in network byte order. Reading the matching family back gives the same address and port and consumes exactly those bytes. Reading from an input that is too short gives an error and never a made-up address.",
  ["inputs", "fault_sequences"], "every address, endpoint and input length; readers that return data in small portions or are interrupted",
  "The dht crate has no test at all.",
  ["dht/src/detail.rs"], [("octets and to_be_bytes", "write_address, write_socket_addr, read_v4_*, read_v6_*")],
  ["detail::write_*", "detail::read_*"])

ST = ["dht/src/storage.rs"]
STATE = [("map", "torrents with their IPv4 and IPv6 peers", "DefaultDhtStorage"), ("immutable_table / mutable_table", "stored items", "DefaultDhtStorage"), ("node_ids", "our own node ids, used to rank items", "DefaultDhtStorage")]
p("D06", "Peer lookups return exactly announced peers",
  "After any history of announces, a non-scrape lookup lists only peers announced and stored for that torrent, of the requester's address family, each at most once and in compact form, appended to the reply's list of values (created if absent). Time passing by itself changes nothing. When seeds are excluded, none whose latest announce said seed is listed; otherwise seeds count like others. The number listed is the smaller of the eligible peers and the reply limit (a quarter of it for IPv6), so every eligible peer is listed when they fit, and the torrent's stored name is given when it has one. For a known torrent, a reply that is no dictionary, or (for a non-scrape lookup) whose values entry is no list, is refused with an error.",
  ["histories", "configurations"], "every sequence of announces and lookups over torrents, endpoints, seed flags and names, under every reply limit",
  "The dht crate has no test at all; test_dht_storage.rs only builds a settings value.",
  ST + ["dht/src/detail.rs"], [("sorted peer vectors", "DefaultDhtStorage::announce_peer"), ("selection sampling", "DefaultDhtStorage::get_peers")],
  ["DhtStorage::announce_peer", "DhtStorage::get_peers"], state=STATE)

p("D07", "Peer storage respects its capacity limits and reports being full",
  "The number of torrents never exceeds the torrent limit and the peers of one address family of one torrent never exceed the peer limit; an announce beyond a limit is dropped without disturbing what is stored, while a stored peer's re-announce always updates it. A torrent keeps the first non-empty announced name, cut to its first 100 characters. A lookup reports that announcing is pointless exactly when the torrent is unknown and the torrent limit is reached, or the requester's family is at the peer limit and the requester's own address and port are not stored.",
  ["histories", "configurations"], "every sequence of announces and lookups under every pair of limits, including zero",
  "The dht crate has no test at all.",
  ST, [("capacity checks", "announce_peer, get_peers"), ("binary search by address and port", "PeerEntry ordering")],
  ["DhtStorage::announce_peer", "DhtStorage::get_peers return value"], state=STATE)

p("D08", "Sampled peer replies give every eligible peer the same chance",
  "When more peers are eligible than the reply may hold, the listed peers are a uniform random sample: over repeated lookups every eligible peer is listed, each with the same frequency (reply size / eligible peers). This holds for both address families and with seeds excluded.",
  ["configurations", "histories"], "every number of eligible peers, reply limit, seed mix and address family",
  "The dht crate has no test at all, and a fixed test cannot observe a distribution.",
  ST + ["common/src/random.rs"], [("selection sampling", "DefaultDhtStorage::get_peers"), ("random index", "common/src/random.rs: random_usize")],
  ["DhtStorage::get_peers over many calls"], state=STATE)

p("D09", "Scrape replies summarise exactly the stored seeds and downloaders",
  "A scrape lookup of a known torrent returns two 256-byte Bloom filters, one over the address hashes of the requester-family peers whose latest announce said seed and one over all other requester-family peers. Every such peer tests positive in its own filter and the filters contain no bit of any other peer. A scrape lists no peers, and includes the torrent's name when it has one.",
  ["histories"], "every history of announces, including peers changing between seed and downloader, and every requester family",
  "The dht crate has no test at all.",
  ST + ["common/src/bloom_filter.rs"], [("scrape branch", "DefaultDhtStorage::get_peers"), ("filters", "common/src/bloom_filter.rs")],
  ["DhtStorage::get_peers with scrape"], state=STATE)

p("D10", "Immutable items are returned unchanged until evicted",
  "A stored immutable item is returned for its target, with the value that was first stored there, by every lookup until it is evicted to make room, however much time passes; storing again under the same target never changes it. A lookup of an absent target reports absence and leaves the reply alone; a lookup of a present one changes nothing in the reply but the value entry. Immutable items are unaffected by mutable items and announces, and the reverse.",
  ["histories"], "every interleaving of immutable stores, mutable stores, announces and lookups over a set of targets, with any item limit",
  "The dht crate has no test at all.",
  ST, [("table keyed by target", "put_immutable_item, get_immutable_item")],
  ["DhtStorage::put_immutable_item", "DhtStorage::get_immutable_item"], state=STATE)

p("D11", "Mutable items only move forward in sequence number",
  "A stored mutable item is replaced exactly by a store with a strictly greater sequence number, which takes effect as a whole (value, signature, sequence number); stores with an equal or smaller number change nothing, however much later they come, and the key stays the first one. A lookup of a present item reports its sequence number, and includes value, signature and key exactly when forced or when the asked number is not negative and smaller than the stored one. Absent targets are reported absent and the reply left alone.",
  ["histories"], "every sequence of mutable stores and lookups over targets and sequence numbers, including negative, equal and extreme ones",
  "The dht crate has no test at all.",
  ST, [("sequence comparison", "put_mutable_item, get_mutable_item, get_mutable_item_seq")],
  ["DhtStorage::put_mutable_item", "DhtStorage::get_mutable_item", "DhtStorage::get_mutable_item_seq"], state=STATE)

p("D12", "Full item tables evict exactly one least important item",
  "Each of the two item tables never holds more items than the item limit (none at all when it is zero); while there is room nothing is evicted. When a new target is stored into a full table, exactly one other item leaves it, and that item has the least importance: a fifth of its number of distinct announcing addresses (rounded down, addresses told apart by the item's Bloom filter), less the smallest distance exponent from its target to our node ids. Stores to targets already present evict nothing but count the announcing address.",
  ["histories", "configurations"], "every sequence of stores from any addresses over any targets, node id sets and item limits, for both tables",
  "The dht crate has no test at all; any eviction with two items panics at the pinned commit in a checked build.",
  ST + ["dht/src/node.rs"], [("eviction choice", "pick_least_imp"), ("announcer count", "DhtImmutableItem::touch_item")],
  ["DhtStorage::put_* followed by lookups of every target"], state=STATE)

p("D13", "Storage counters equal what is stored",
  "After any history of operations the reported counters equal the number of stored torrents, of stored peers over all torrents and both address families, of immutable items and of mutable items. Dropped announces, re-announces, repeated stores and evictions are reflected exactly, and resetting a counter copy gives zeros.",
  ["histories"], "every sequence of announces and stores, including evictions and drops at capacity",
  "The dht crate has no test at all; reading the counters is unimplemented at the pinned commit.",
  ST, [("increments and decrements beside each table change", "announce_peer, put_immutable_item, put_mutable_item")],
  ["DhtStorage::counters"], hook="accessor for the private counter fields", state=STATE + [("counters", "torrents, peers, immutable_data, mutable_data", "DefaultDhtStorage")])

p("D14", "Node distance follows the Kademlia XOR metric",
  "For every pair of identifiers the distance exponent is the position of the highest bit in which they differ (the floor of the base-2 logarithm of their XOR), and 0 for equal identifiers; it is symmetric and never panics. The minimum distance exponent over a non-empty set of identifiers is the smallest of the individual ones, whatever their order.",
  ["inputs"], "every pair of identifiers, including equal ones and ones differing in exactly one bit, and every non-empty list",
  "The dht crate has no test at all.",
  ["dht/src/node.rs", "common/src/sha1.rs"], [("xor and leading zeros", "distance, distance_exp, min_distance_exp")],
  ["node::distance_exp", "node::min_distance_exp"])

p("D15", "Message verification finds every required key or fails",
  "Verifying a message against a description of required keys succeeds exactly when the message is a dictionary holding all of them, and then each output slot refers to the value of its own key. Otherwise it gives an error, and it never panics.",
  ["inputs"], "every bencode message and every list of required keys, including repeated and absent ones",
  "The dht crate has no test at all.",
  ["dht/src/msg.rs"], [("key loop", "verify_message_impl")],
  ["msg::verify_message_impl"], hook="constructor for the private key description")

p("D16", "Hostile DHT state and settings documents cannot exhaust memory",
  "For every decoded document, reading it as node state or as settings, and saving what was read, allocates at most a fixed multiple of the document's length plus a constant, however many entries it lists and whatever numbers it sets.",
  ["inputs"], "every document, in particular very many of the smallest entries, long strings and huge numbers",
  "No test meters allocation, and the dht crate has no test of state or settings.",
  ["dht/src/state.rs", "dht/src/settings.rs", "dht/src/detail.rs"], [("one output per well-formed entry", "read_endpoint_list, extract_node_ids")],
  ["DhtState::read", "DhtState::save", "extract_node_ids", "DhtSettings::read and save under allocation metering"])

p("D17", "Strangers cannot grow the DHT storage beyond its limits",
  "However many announcements and stores arrive, from however many addresses, for however many targets and with names of whatever length, the memory the storage holds stays bounded by its limits on torrents, peers and items (and the sizes of the items stored): what is dropped, evicted or replaced leaves nothing behind. When the storage goes, all of its memory is given back.",
  ["inputs", "histories"], "every history of announcements, stores and lookups of any length under every setting of the limits",
  "No test meters allocation or reaches a limit.",
  ["dht/src/storage.rs"], [("limits checked before an entry is made; names cut to 100 characters", "announce_peer"), ("eviction", "put_immutable_item, put_mutable_item")],
  ["memory held by a DefaultDhtStorage after announce_peer, put_immutable_item, put_mutable_item and lookups"])

p("D18", "Storage replies sent as messages are understood by who receives them",
  "What lookups put into a reply can be encoded in a message, and whoever decodes that message, with the owned or the borrowed decoder and within the usual limits, finds its required keys and gets back from the bytes alone: as many distinct endpoints as the reply holds, each announced and of the requester's family (and no seeds when those were excluded), through the address readers; filters that find every announced peer of their kind and are empty when there is none; an immutable item whose encoding hashes to the target it was stored under; a mutable item's value, sequence number, signature and key as stored; the torrent's name and the entries the reply already had.",
  ["inputs", "histories"], "every history of announces and stores, every reply and every message around it",
  "No test connects the storage, the encoder, the decoders, the address readers, the filters and the hash.",
  ["dht/src/storage.rs", "dht/src/detail.rs", "bencode/src/value.rs", "bencode/src/value_ref.rs", "common/src/sha1.rs"], [("compact addresses", "write_socket_addr, read_v4_socket_address, read_v6_socket_address"), ("replies", "get_peers, get_immutable_item, get_mutable_item")],
  ["bytes of Value::to_vec on a reply, decoded and read back"])

p("D19", "Storages and codecs of the DHT do not influence one another",
  "Several storages in one process, used in any interleaving, on any threads, created and dropped at any time, each behave as if they were alone, also when they hold the same info-hashes, targets and peers. Reading and writing node states, settings and compact addresses, distances and message verification give the result their arguments determine whatever was called before and from however many threads at once.",
  ["inputs", "histories", "schedules"], "every interleaving of histories of several storages; every history of calls on similar arguments; concurrent callers",
  "The dht crate has no test at all.",
  ["dht/src/storage.rs", "dht/src/state.rs", "dht/src/settings.rs", "dht/src/detail.rs", "dht/src/node.rs", "dht/src/msg.rs"], [("all state in the storage", "DefaultDhtStorage"), ("no state outside the arguments", "DhtState, DhtSettings, detail, node, msg")],
  ["results of every operation of each storage", "results of every call of a history"], hook="counter fields and message key descriptions")

p("D20", "DHT storage operations cost no more when more is stored",
  "Announcing a peer, asking for the peers of a torrent, putting again, getting and asking for the sequence number of an item, and reading the counters take time that does not grow with the number of other torrents and items in the storage, also when it is full and also for torrents and items it does not hold. Storing one more does not either, as long as there is room. (Choosing which item makes room for another may look at all of them.)",
  ["inputs", "histories"], "every population of a storage; every operation on it",
  "The dht crate has no test at all.",
  ["dht/src/storage.rs"], [("hash tables by info-hash and target", "DefaultDhtStorage: map, immutable_table, mutable_table"), ("counters kept up to date", "DefaultDhtStorage: counters")],
  ["CPU time of runs of operations among few and among many others"])

p("D21", "Node state, distances and messages take time in proportion to their size",
  "Reading a node state or settings from a document and saving a node state take time in proportion to the document, whatever the number and form of its entries. The least distance to a list of identifiers takes time in proportion to the list, and verifying a message does not take time in proportion to the product of its keys and those wanted.",
  ["inputs"], "every document and list, in particular with very many entries",
  "The dht crate has no test at all.",
  ["dht/src/state.rs", "dht/src/settings.rs", "dht/src/node.rs", "dht/src/msg.rs"], [("one pass over each list", "DhtState::read, save, extract_node_ids"), ("running minimum", "min_distance_exp"), ("map lookups", "verify_message_impl")],
  ["CPU time of each call"], hook="message key descriptions")

MG = ["src/magnet_uri.rs"]
p("T01", "A magnet link's info-hash is taken exactly from its hex or base32 form",
  "A magnet link whose exact topic is urn:btih: followed by 40 hexadecimal digits in either case, or by 32 base32 characters in either case, yields exactly the 20-byte info-hash these denote; the last such topic wins and other topics are ignored. Links without one, with a topic of another length or with characters outside the alphabet, and links of another scheme are rejected with an error. Printing a parsed link gives a magnet link that parses to the same info-hash.",
  ["inputs"], "every info-hash in every spelling, every malformed topic, among other parameters in any order",
  "The unit tests of the root crate cannot be built here and none covers magnet links.",
  MG + ["common/src/hex.rs", "src/str_utl.rs"], [("xt branch", "parse_magnet_uri"), ("hex and base32 decoders", "common/src/hex.rs, src/str_utl.rs")],
  ["TorrentParams::from_str", "Display"], hook="re-export of private modules")

p("T02", "A magnet link's parameters are recovered exactly and in order",
  "For every list of parameters encoded into a magnet link, parsing recovers the display name (last one wins), trackers in order with tiers counting up from 0, web seeds in order, peer endpoints in order and DHT routers as host and port in order, with percent-encoding and plus signs undone. Unknown parameters change nothing, and DHT routers without a port separator are ignored. A peer that is not an address with a port, or a router port that is not a 16-bit number, makes parsing fail.",
  ["inputs"], "every list of parameters with arbitrary Unicode content, any order, any percent-encoding style",
  "The unit tests of the root crate cannot be built here and none covers magnet links.",
  MG + ["src/params.rs"], [("query_pairs loop", "parse_magnet_uri")],
  ["TorrentParams fields"], hook="re-export of private modules")

p("T03", "Magnet file selection selects exactly the listed files",
  "A select-only list of comma-separated indices and ranges marks exactly the listed files, range ends included, as wanted and every other file up to the highest listed one as unwanted; several lists add up. Empty items, items without a start or end, reversed ranges and indices above 10000 are skipped without affecting the others, and a list with any other character is ignored. A number too large or too malformed to parse may instead make the whole link fail.",
  ["inputs"], "every list of indices and ranges, well-formed or not, over one or several select-only parameters",
  "The unit tests of the root crate cannot be built here and none covers magnet links.",
  MG + ["src/str_utl.rs"], [("so branch", "parse_magnet_uri"), ("split_string, parse_int", "src/str_utl.rs")],
  ["TorrentParams::file_priorities"], hook="re-export of private modules")

p("T04", "Parsing any magnet text terminates with a result or an error",
  "For every string, parsing it as a magnet link returns a result or an error: it never panics, never loops forever, and allocates at most a fixed multiple of its length plus a constant. On success there is exactly one tracker tier per tracker and at most 10001 file priorities.",
  ["inputs"], "every string, in particular mutations of valid links and malformed parameter values",
  "The unit tests of the root crate cannot be built here and none covers magnet links.",
  MG + ["src/str_utl.rs", "common/src/hex.rs"], [("error returns and index cap", "parse_magnet_uri")],
  ["TorrentParams::from_str under CPU and allocation metering"], hook="re-export of private modules")

p("T05", "A valid torrent file is parsed into exactly what it describes",
  "For every well-formed metainfo document, parsing yields the tracker URL, name, piece length, concatenated piece hashes and the files with their sizes in order: one file named after the torrent for the single-file form, and for the multi-file form each file under the path joined from its segments. Extra keys and the order of keys in the file make no difference.",
  ["inputs"], "every well-formed metainfo document of either form, with extra keys",
  "One unit test parses one file that is not in the repository, prints the result and cannot be built here.",
  ["src/torrent.rs"], [("field extraction", "Torrent::parse")],
  ["parsed torrent fields"], hook="parse entry point and read-only view of the private fields")

p("T06", "Malformed torrent files are rejected, never misread",
  "For every byte string, parsing it as a torrent either fails cleanly or yields a torrent; it never panics, hangs or crashes, whatever the nesting. Documents are rejected that lack a required field, hold one of the wrong kind, have a piece string whose length is not a multiple of 20, a piece length that is not positive, a negative file size, both or neither of the single- and multi-file forms, an invalid tracker URL, text fields that are not UTF-8, or that exceed the decoding limits for torrents. What is read depends on the value the document denotes, not on how it is written, nor on entries nobody asks for.",
  ["inputs"], "every byte string, in particular valid documents with one or more fields removed, retyped or pushed out of range",
  "One unit test parses one valid file that is not in the repository.",
  ["src/torrent.rs", "src/info.rs", "bencode/src/value_ref.rs"], [("? on each field", "Torrent::parse"), ("limits", "src/info.rs: TorrentLimits")],
  ["Torrent::parse result"], hook="parse entry point and read-only view of the private fields")

p("T07", "File paths from a torrent never leave the download directory",
  "For every torrent that is accepted, every file path and the torrent's name are relative, non-empty and without parent-directory steps, so that joining them to a download directory stays inside it, however the segments are spelled. Torrents naming absolute paths, parent steps or nothing are rejected.",
  ["inputs"], "every list of path segments and name, including absolute ones, dot segments, empty segments and embedded separators",
  "One unit test parses one valid file that is not in the repository and looks at no path.",
  ["src/torrent.rs"], [("path assembly", "Torrent::parse")],
  ["paths of the parsed torrent"], hook="parse entry point and read-only view of the private fields")

p("T08", "Parsing a magnet link into existing parameters only adds to them",
  "Parsing a well-formed link into parameters that already hold entries, from other links or set by hand, keeps every tracker, tier, web seed, peer and router they hold, in place, and appends the link's own behind them in order, repeated ones included; there is exactly one tier per tracker again as soon as the link brings a tracker. File selections only add files: an unlisted file keeps its priority. The name is replaced if the link has one, the info-hash always. A link without an info-hash of its own is rejected whatever the parameters hold, and a rejected link takes away or changes none of these entries either.",
  ["inputs", "histories"], "every content of the parameters before and every sequence of links",
  "No test parses two links, or one link into parameters that are not empty.",
  MG, [("append and resize instead of assignment", "parse_magnet_uri")],
  ["public fields of TorrentParams after parse_magnet_uri"], hook="re-export of private modules")

p("T09", "Hostile torrent files cannot exhaust memory",
  "For every byte string, parsing it as a torrent allocates at most a fixed multiple of its length plus a constant, whatever lengths, sizes and counts it claims, and takes time in keeping with its length.",
  ["inputs"], "every byte string, in particular huge claimed numbers and very many of the smallest parts",
  "No test meters allocation.",
  ["src/torrent.rs", "src/info.rs", "bencode/src/value_ref.rs"], [("no allocation by claimed size", "Torrent::parse")],
  ["Torrent::parse under CPU and allocation metering"], hook="parse entry point")

p("T10", "Parsing a link, torrent or text depends on that input alone",
  "Parsing magnet links, torrents and texts gives the result the input determines whatever was parsed before, in whatever order, how often and from however many threads at once: two inputs that differ in a single digit, character, entry or their order are each given their own result, wherever they lie in memory, and a rejected input leaves nothing behind for the next one.",
  ["inputs", "histories", "schedules"], "every history of calls, every family of similar links, torrents and texts; concurrent callers",
  "The unit tests of the root crate cannot be built here and none parses two inputs.",
  ["src/magnet_uri.rs", "src/torrent.rs", "src/info.rs", "src/str_utl.rs"], [("no state outside the arguments", "parse_magnet_uri, Torrent::parse, str_utl")],
  ["results of every call of a history"], hook="re-export of private modules, parse entry point")

p("T11", "Links and torrents are parsed in time in proportion to their length",
  "Parsing a magnet link takes time in proportion to its length (plus, per selected range of files, the length of the range), however many trackers, web seeds, peers, routers, selections, names, topics or unknown parameters it has and however long one of them is. Parsing a torrent takes time in proportion to the document, however many files, pieces and unknown keys it has and however long its names are.",
  ["inputs"], "every link and document, in particular with very many or very long parts",
  "The unit tests of the root crate cannot be built here and parse short links and one small torrent.",
  ["src/magnet_uri.rs", "src/torrent.rs", "src/str_utl.rs"], [("one pass over the parameters", "parse_magnet_uri"), ("one pass over the files", "Torrent::parse")],
  ["CPU time of each call"], hook="re-export of private modules, parse entry point")

p("T12", "A rejected link or text is rejected for what is wrong with it",
  "A link with one fault is rejected with the error that names it: no URL at all as InvalidUrl; a URL of another scheme as UnsupportedUrlProtocol, whatever else it holds; no exact topic of BitTorrent as MissingInfoHash; one of a wrong length or with a character outside its alphabet as InvalidInfoHash; a malformed peer as ParseEndpoint; a router with a malformed port, or a selected file number beyond the range of numbers, as ParseInt. A malformed escape, or one whose bytes are no text where text is asked for, is an InvalidEscapedString; a text that is no number a ParseInt; an endpoint without a port an InvalidPort, and one whose bracket is not closed an ExpectedCloseBracketInAddr.",
  ["inputs"], "every link with a single fault among any sound parameters; every malformed text",
  "The unit tests of the root crate cannot be built here and look at no error of a link.",
  ["src/magnet_uri.rs", "src/error.rs", "src/str_utl.rs"], [("error chosen where the fault is found", "parse_magnet_uri, str_utl"), ("conversions", "src/error.rs")],
  ["error returned"], hook="re-export of private modules, parse entry point")

SU = ["src/str_utl.rs"]
p("S01", "Unescaping inverts percent-encoding and rejects malformed escapes",
  "For every byte string in any mix of raw, percent-encoded (either hex case) and plus-for-space spelling, unescaping gives back the bytes; text unescaping does so exactly when they are valid UTF-8. An escape cut short or with a non-hexadecimal digit is rejected. No input makes it panic.",
  ["inputs"], "every byte string and every spelling of it; every malformed escape",
  "The one unit test decodes one string and cannot be built here.",
  SU, [("escape state machine", "unescape_bytes, unescape_string")],
  ["unescape_bytes", "unescape_string"], hook="re-export of private module")

p("S02", "Base32 decoding inverts base32 encoding",
  "Decoding the base32 encoding of any bytes, padded or unpadded, in either case and with the digit 1 for the letter I, gives back the bytes. Text with a character outside the alphabet decodes to nothing. Other text of a length an encoding can have decodes to the whole bytes its digits form, and a group of eight characters decodes alike whatever surrounds it. No text makes it panic, and the output never exceeds five bytes per eight characters.",
  ["inputs"], "every byte string and every spelling of its encoding; every text",
  "The one unit test decodes a dozen short texts and cannot be built here.",
  SU, [("8-to-5 regrouping and output length table", "base32_decode")],
  ["base32_decode"], hook="re-export of private module")

p("S03", "Text splitting, trimming and number parsing follow their definitions",
  "Splitting at a separator gives the text before its first occurrence outside a leading quoted part and the text after it, together with the separator forming the input. Trimming removes exactly the leading and trailing blanks, tabs and line ends. Integers parse exactly when the text is an optionally signed run of digits within range; case mapping and character classes are those of ASCII.",
  ["inputs"], "every byte string, separator and byte",
  "The unit tests check about fifteen fixed strings and cannot be built here.",
  SU, [("scanners", "split_string, trim, parse_int, to_upper, is_digit, is_whitespace")],
  ["split_string", "trim", "parse_int", "to_upper", "is_digit", "is_whitespace"], hook="re-export of private module")

p("S04", "Text helpers take time in proportion to the length of the text",
  "Unescaping, decoding base32, trimming and reading a number take time in proportion to the length of the text, accepted or rejected. Splitting a part off takes time in proportion to that part, not to the rest, so that splitting a text into all its parts is linear too.",
  ["inputs"], "every text, in particular long ones of many short parts",
  "The unit tests use texts of a few dozen characters and cannot be built here.",
  SU, [("one pass over the text", "unescape_bytes, base32_decode, trim, split_string, parse_int")],
  ["CPU time of each call"], hook="re-export of private module")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
if __name__ == "__main__":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x, s)
    except ImportError: pass
