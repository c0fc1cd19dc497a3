//! Literals of the code under test (numbers, characters, strings), read from its sources when a worker starts. They only
//! steer generation towards values the code compares with; no judgement depends on them.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// Numbers above 16, with their neighbours.
    pub ints: Vec<u64>,
    /// Non-empty texts of at most 200 bytes.
    pub strs: Vec<Vec<u8>>,
    /// Numbers usable as sizes in large cases, not among `model::SIZES`.
    pub sizes: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(Path::new(&root), &mut files);
        files.sort();
        let mut s = Scan::default();
        for f in files {
            if let Ok(t) = std::fs::read(&f) {
                let cut = find(&t, b"#[cfg(test)]").unwrap_or(t.len());
                s.scan(&t[..cut]);
            }
        }
        let mut ints = BTreeSet::new();
        for &v in &s.ints {
            if v > 16 {
                ints.extend([v - 1, v, v.saturating_add(1)]);
            }
        }
        let sizes = s.ints.iter().filter(|&&v| (24..=140_000).contains(&v)).flat_map(|&v| [v as usize, v as usize + 1]).collect::<BTreeSet<_>>();
        let sizes: Vec<usize> = sizes.into_iter().filter(|n| !crate::model::SIZES.contains(n)).take(48).collect();
        Dict { ints: ints.into_iter().collect(), strs: s.strs.into_iter().collect(), sizes }
    })
}

fn find(t: &[u8], w: &[u8]) -> Option<usize> {
    t.windows(w.len()).position(|x| x == w)
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    for e in l.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let Ok(t) = e.file_type() else { continue };
        if t.is_dir() {
            if !name.starts_with('.') && !["target", "tests", "benches", "examples", "fuzz"].contains(&name.as_str()) {
                walk(&e.path(), out);
            }
        } else if t.is_file() && name.ends_with(".rs") {
            out.push(e.path());
        }
    }
}

#[derive(Default)]
struct Scan {
    ints: BTreeSet<u64>,
    strs: BTreeSet<Vec<u8>>,
}

impl Scan {
    fn text(&mut self, b: Vec<u8>) {
        if !b.is_empty() && b.len() <= 200 {
            // numbers inside strings, such as defaults in attributes
            for run in b.split(|c| !c.is_ascii_digit() && *c != b'_' && *c != b'x') {
                if run.first().map_or(false, |c| c.is_ascii_digit()) {
                    self.number(&String::from_utf8_lossy(run));
                }
            }
            self.strs.insert(b);
        }
    }
    fn number(&mut self, t: &str) -> Option<u64> {
        let t: String = t.chars().filter(|&c| c != '_').collect();
        let (digits, radix) = match t.get(..2) {
            Some("0x") => (&t[2..], 16),
            Some("0o") => (&t[2..], 8),
            Some("0b") => (&t[2..], 2),
            _ => (&t[..], 10),
        };
        let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
        let v = u64::from_str_radix(&digits[..end], radix).ok()?;
        self.ints.insert(v);
        Some(v)
    }
    fn scan(&mut self, b: &[u8]) {
        let at = |i: usize| b.get(i).copied().unwrap_or(0);
        let mut i = 0;
        // the last two tokens: a number, then an operator
        let mut last: Option<u64> = None;
        let mut op = 0u8;
        while i < b.len() {
            let c = b[i];
            let prev = if i > 0 { b[i - 1] } else { 0 };
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
            if c == b'/' && at(i + 1) == b'/' {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else if c == b'/' && at(i + 1) == b'*' {
                let mut depth = 0;
                while i < b.len() {
                    if b[i] == b'/' && at(i + 1) == b'*' {
                        depth += 1;
                        i += 2;
                    } else if b[i] == b'*' && at(i + 1) == b'/' {
                        depth -= 1;
                        i += 2;
                        if depth == 0 {
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
            } else if (c == b'r' && !word(prev) || c == b'r' && prev == b'b') && (at(i + 1) == b'"' || at(i + 1) == b'#' && (at(i + 2) == b'"' || at(i + 2) == b'#')) {
                let mut h = 0;
                while at(i + 1 + h) == b'#' {
                    h += 1;
                }
                let start = i + 2 + h;
                let close: Vec<u8> = std::iter::once(b'"').chain(std::iter::repeat(b'#').take(h)).collect();
                let end = b.get(start..).and_then(|t| find(t, &close)).map_or(b.len(), |k| start + k);
                self.text(b[start.min(end)..end].to_vec());
                i = end + close.len();
                last = None;
            } else if c == b'"' {
                let (t, end) = quoted(b, i + 1, b'"');
                self.text(t);
                i = end;
                last = None;
            } else if c == b'\'' {
                // a character unless it is a lifetime
                if at(i + 1) == b'\\' || at(i + 2) == b'\'' || at(i + 1) >= 0x80 {
                    let (t, end) = quoted(b, i + 1, b'\'');
                    self.text(t);
                    i = end;
                } else {
                    i += 1;
                }
                last = None;
            } else if c.is_ascii_digit() && !word(prev) && prev != b'.' {
                let mut j = i;
                while j < b.len() && word(b[j]) {
                    j += 1;
                }
                let t = String::from_utf8_lossy(&b[i..j]).into_owned();
                let v = self.number(&t);
                if let (Some(a), Some(v)) = (last, v) {
                    let r = match op {
                        b'*' => a.checked_mul(v),
                        b'<' if v < 64 => a.checked_mul(1 << v),
                        b'+' => a.checked_add(v),
                        b'-' => a.checked_sub(v),
                        _ => None,
                    };
                    if let Some(r) = r {
                        self.ints.insert(r);
                        last = Some(r);
                        op = 0;
                        i = j;
                        continue;
                    }
                }
                last = v;
                op = 0;
                i = j;
            } else {
                if b"*<+-".contains(&c) {
                    op = c;
                } else if !c.is_ascii_whitespace() {
                    last = None;
                    op = 0;
                }
                i += 1;
            }
        }
    }
}

/// The text of a quoted literal from `i` on, and the position behind it.
fn quoted(b: &[u8], mut i: usize, q: u8) -> (Vec<u8>, usize) {
    let mut out = vec![];
    while i < b.len() && b[i] != q {
        if b[i] == b'\\' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                b'n' => out.push(b'\n'),
                b'r' => out.push(b'\r'),
                b't' => out.push(b'\t'),
                b'0' => out.push(0),
                b'x' => {
                    let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                    if let Some(h) = h {
                        out.push(h);
                        i += 2;
                    }
                }
                b'u' if b.get(i + 1) == Some(&b'{') => {
                    let end = b[i..].iter().position(|&c| c == b'}').map_or(b.len(), |k| i + k);
                    let h = std::str::from_utf8(&b[i + 2..end]).ok().and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                    if let Some(h) = h {
                        out.extend_from_slice(h.to_string().as_bytes());
                    }
                    i = end;
                }
                b'\n' => {
                    while i + 1 < b.len() && b[i + 1].is_ascii_whitespace() {
                        i += 1;
                    }
                }
                c => out.push(c),
            }
            i += 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, (i + 1).min(b.len()))
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn literals() {
        let mut s = Scan::default();
        s.scan(br##"fn f<'a>(x: &'a str) { if x.len() == 1_234usize || n > 64 * 1024 || 1 << 13 == m { "a\x41\"" ; b"q\xff"; r#"raw"x"#; '\n'; 'z'; '\u{e9}'; b'/' } } // 777 "no"
        /* 888 */ #[def = "0x100000"] x.0 .1 0xff"##);
        for v in [1234, 65536, 8192, 0x100000, 0xff] {
            assert!(s.ints.contains(&v), "{}", v);
        }
        assert!(!s.ints.contains(&777) && !s.ints.contains(&888));
        for t in [&b"aA\""[..], b"q\xff", b"raw\"x", b"\n", b"z", "é".as_bytes(), b"/"] {
            assert!(s.strs.contains(t), "{:?}", t);
        }
    }
}
