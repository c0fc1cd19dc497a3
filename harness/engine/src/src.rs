//! The choice source every generator draws from. A case is the sequence of bytes drawn: in search mode they come from a
//! seeded PRNG and are recorded, in replay mode (and under libFuzzer) from a given buffer, zeros after its end.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub struct Src {
    pub buf: Vec<u8>,
    pub pos: usize,
    rng: Option<Rng>,
    word: u64,
    left: u8,
    pub spans: Vec<(usize, usize)>,
    /// Bytes to be drawn next instead of random ones: a literal of the code under test.
    pending: std::collections::VecDeque<u8>,
    /// Draws of numbers until the next one is a literal.
    until: u32,
}

/// More choices than this per case read as zero, so that every generator ends.
const LIMIT: usize = 4 << 20;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { buf: vec![], pos: 0, rng: Some(Rng::new(seed)), word: 0, left: 0, spans: vec![], pending: Default::default(), until: (seed >> 7) as u32 % 64 }
    }
    pub fn replay(buf: Vec<u8>) -> Self {
        Src { buf, pos: 0, rng: None, word: 0, left: 0, spans: vec![], pending: Default::default(), until: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.buf.len() {
            self.buf[self.pos]
        } else if self.pos >= LIMIT {
            return 0;
        } else if let Some(r) = &mut self.rng {
            let b = if let Some(b) = self.pending.pop_front() {
                b
            } else {
                if self.left == 0 {
                    self.word = r.next();
                    self.left = 8;
                }
                let b = self.word as u8;
                self.word >>= 8;
                self.left -= 1;
                b
            };
            self.buf.push(b);
            b
        } else {
            0
        };
        self.pos += 1;
        b
    }
    pub fn used(&self) -> Vec<u8> {
        self.buf[..self.pos.min(self.buf.len())].to_vec()
    }
    pub fn raw(&mut self, n: usize) -> u64 {
        (0..n).fold(0u64, |a, _| a << 8 | self.byte() as u64)
    }
    /// A number not taken from the choices; only while searching.
    fn coin(&mut self, n: usize) -> Option<usize> {
        if self.pos < self.buf.len() || self.pos >= LIMIT / 2 || !self.pending.is_empty() {
            return None;
        }
        self.rng.as_mut().map(|r| (r.next() % n as u64) as usize)
    }
    /// Lets the next number drawn be a literal in lo..lo + n, less lo.
    fn inject(&mut self, bytes: usize, lo: u64, n: u64) {
        let ints = &crate::dict::get().ints;
        if ints.is_empty() {
            return;
        }
        if let Some(i) = self.coin(ints.len()) {
            // the literals are sorted: take one that fits
            let a = ints.partition_point(|&v| v < lo);
            let b = ints.partition_point(|&v| v - lo.min(v) < n);
            if a < b {
                let v = ints[a + i % (b - a)] - lo;
                if bytes == 8 || v >> (bytes * 8) == 0 {
                    self.pending.extend(&v.to_be_bytes()[8 - bytes..]);
                }
            }
        }
    }
    fn now_and_then(&mut self, bytes: usize, lo: u64, n: u64) {
        if self.rng.is_none() {
            return;
        }
        if self.until == 0 {
            self.until = 24 + self.coin(80).unwrap_or(0) as u32;
            self.inject(bytes, lo, n);
        } else {
            self.until -= 1;
        }
    }
    pub fn u16(&mut self) -> u16 {
        self.now_and_then(2, 0, 1 << 16);
        self.raw(2) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.now_and_then(4, 0, 1 << 32);
        self.raw(4) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.now_and_then(8, 0, u64::MAX);
        self.raw(8)
    }
    /// Any number, a literal of the code while searching.
    pub fn dict_u64(&mut self) -> u64 {
        self.inject(8, 0, u64::MAX);
        self.raw(8)
    }
    /// A short byte string, a literal of the code while searching.
    pub fn literal(&mut self, max: usize) -> Vec<u8> {
        let strs = &crate::dict::get().strs;
        if !strs.is_empty() {
            if let Some(i) = self.coin(strs.len()) {
                if strs[i].len() <= max {
                    self.pending.push_back(strs[i].len() as u8);
                    self.pending.extend(&strs[i]);
                }
            }
        }
        let n = (self.byte() as usize).min(max);
        self.bytes(n)
    }
    /// Uniform (nearly) in 0..n; zero choices give 0.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let bytes = if n <= 16 || n == 256 {
            1
        } else if n <= 1 << 12 || n == 1 << 16 {
            2
        } else if n <= 1 << 28 {
            4
        } else {
            8
        };
        if n > 32 {
            self.now_and_then(bytes, 0, n);
        }
        self.raw(bytes) % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let n = (hi - lo) as u64 + 1;
        if lo > 0 && n > 32 {
            let bytes = if n == 256 { 1 } else if n <= 1 << 12 || n == 1 << 16 { 2 } else if n <= 1 << 28 { 4 } else { 8 };
            self.now_and_then(bytes, lo as u64, n);
        }
        lo + self.usize(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    /// True in `num` of `den` cases; zero choices give false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    /// Marks what `f` draws as one unit the shrinker may delete.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let a = self.pos;
        let r = f(self);
        let b = self.pos;
        if b > a && self.spans.len() < 20_000 {
            self.spans.push((a, b));
        }
        r
    }
    /// A list of at most `max` elements, about `avg` on average: each element is preceded by a continue flag.
    pub fn list<T>(&mut self, max: usize, avg: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = vec![];
        // now and then as long as a literal of the code says
        let want = match self.coin(40) {
            Some(0) => {
                let sizes = &crate::dict::get().ints;
                let k = sizes.partition_point(|&n| n <= max as u64);
                if k > 0 { self.coin(k).map(|i| sizes[i] as usize) } else { None }
            }
            _ => None,
        };
        while v.len() < max {
            let a = self.pos;
            if let (Some(w), Some(_)) = (want, self.coin(1)) {
                self.pending.extend([0, (v.len() < w) as u8]);
            }
            let more = (self.raw(2) % (avg as u64 + 1)) != 0;
            if !more {
                break;
            }
            v.push(f(self));
            let b = self.pos;
            if self.spans.len() < 20_000 {
                self.spans.push((a, b));
            }
        }
        v
    }
    /// Skewed towards small sizes, with all sizes up to `max` and sizes around powers of two reachable.
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.weighted(&[16, 12, 8, 4, 2, 2, 1]) {
            6 => {
                self.inject(8, 0, max as u64 + 1);
                (self.raw(8) % (max as u64 + 1)) as usize
            }
            0 => self.usize(4),
            1 => self.usize(17),
            2 => self.usize(65),
            3 => self.usize(300),
            4 => {
                let p = 1usize << self.usize(17);
                p + self.usize(3) - 1
            }
            _ => self.usize(max + 1),
        };
        n.min(max)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// Byte strings of skewed size and content: text, binary, repeated, structural characters.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        if self.chance(1, 14) {
            return self.literal(max);
        }
        let n = self.size(max);
        match self.weighted(&[5, 3, 2, 2]) {
            0 => (0..n).map(|_| b'a' + (self.byte() % 26)).collect(),
            1 => self.bytes(n.min(4096)),
            2 => {
                let c = self.byte();
                vec![c; n]
            }
            _ => (0..n).map(|_| *self.pick(b"dlie:0123456789-e+ \0\xff\x80\xc3\xa9")).collect(),
        }
    }
    pub fn char(&mut self) -> char {
        match self.weighted(&[10, 3, 2, 2, 1]) {
            0 => (b'a' + self.byte() % 26) as char,
            1 => (0x20 + self.byte() % 0x5f) as char,
            2 => *self.pick(&['\0', '\n', '\r', '\t', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '%', '+', '&', '=', '#', ';', ':', '/', '\\', '"', '\u{feff}']),
            3 => char::from_u32(0x80 + self.u16() as u32 % 0x800).unwrap_or('x'),
            _ => char::from_u32(self.u32() % 0x110000).unwrap_or('y'),
        }
    }
    /// Unicode text of at most `max` characters.
    pub fn text(&mut self, max: usize) -> String {
        if self.chance(1, 12) {
            return self.literal_text(max);
        }
        let n = self.size(max);
        if self.chance(1, 12) {
            let c = self.char();
            return std::iter::repeat(c).take(n).collect();
        }
        (0..n.min(2000)).map(|_| self.char()).collect()
    }
    /// Text around literals of the code.
    pub fn literal_text(&mut self, max: usize) -> String {
        let mut t = String::new();
        let parts = self.byte() % 4;
        for i in 0..=parts {
            if i == 0 || self.bool() {
                t.push_str(&String::from_utf8_lossy(&self.literal(200)));
            } else {
                let c = self.char();
                t.push(c);
            }
        }
        t.chars().take(max).collect()
    }
    /// Signed integers with boundary values.
    pub fn int(&mut self) -> i64 {
        match self.weighted(&[4, 4, 3, 3, 2, 2]) {
            5 => {
                let v = self.dict_u64() as i64;
                if self.chance(1, 4) { v.wrapping_neg() } else { v }
            }
            0 => self.below(20) as i64 - 5,
            1 => {
                let bits = 1 + self.usize(64);
                let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
                let v = (self.u64() & m) as i64;
                if self.bool() {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
            2 => {
                let v = (1u64 << self.usize(64)) as i64;
                v.wrapping_add(self.usize(3) as i64 - 1)
            }
            3 => *self.pick(&[0, -1, 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 32, -10, 10, 9, 99, 100, -100, 1_000_000_000_000_000_000, 999_999_999_999_999_999]),
            _ => {
                let d = self.usize(19) as u32;
                let v = 10i64.pow(d).wrapping_add(self.usize(3) as i64 - 1);
                if self.bool() {
                    -v
                } else {
                    v
                }
            }
        }
    }
    pub fn v4(&mut self) -> std::net::Ipv4Addr {
        match self.weighted(&[4, 2, 1]) {
            0 => [10, 0, 0, self.byte() % 8].into(),
            1 => self.u32().into(),
            _ => (*self.pick(&[0u32, u32::MAX, 0x7f000001, 1, 0x01000000, 0x80000000])).into(),
        }
    }
    pub fn v6(&mut self) -> std::net::Ipv6Addr {
        match self.weighted(&[4, 2, 1]) {
            0 => {
                let mut b = [0u8; 16];
                b[0] = 0x20;
                b[1] = 1;
                b[15] = self.byte() % 8;
                b.into()
            }
            1 => {
                let b = self.bytes(16);
                let mut a = [0u8; 16];
                a.copy_from_slice(&b);
                a.into()
            }
            _ => (*self.pick(&[0u128, u128::MAX, 1, 0xffff_7f00_0001, 0xffff_0a00_0001, 1 << 127, 0xfe80 << 112 | 1])).into(),
        }
    }
    pub fn ip(&mut self) -> std::net::IpAddr {
        if self.bool() {
            self.v6().into()
        } else {
            self.v4().into()
        }
    }
    pub fn port(&mut self) -> u16 {
        match self.weighted(&[3, 2, 1]) {
            0 => 6881 + self.byte() as u16 % 4,
            1 => self.u16(),
            _ => *self.pick(&[0, 1, 255, 256, 65535, 65280, 32768]),
        }
    }
    /// 20-byte identifiers, with sparse, dense and patterned ones.
    pub fn id(&mut self) -> [u8; 20] {
        let mut a = [0u8; 20];
        match self.weighted(&[5, 3, 2, 1, 1]) {
            0 => {
                for x in a.iter_mut() {
                    *x = self.byte()
                }
            }
            1 => {
                let bit = self.usize(160);
                a[bit / 8] |= 0x80 >> (bit % 8);
                if self.bool() {
                    let bit = self.usize(160);
                    a[bit / 8] |= 0x80 >> (bit % 8);
                }
                if self.chance(1, 3) {
                    for x in a.iter_mut() {
                        *x = !*x
                    }
                }
            }
            2 => {
                // a run of zeros, then random
                let z = self.usize(20);
                for x in a[z..].iter_mut() {
                    *x = self.byte()
                }
            }
            3 => a = [self.byte(); 20],
            _ => {
                for (i, x) in a.iter_mut().enumerate() {
                    *x = i as u8 + 1
                }
            }
        }
        a
    }
}
