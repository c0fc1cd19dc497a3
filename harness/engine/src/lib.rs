//! Property-based testing engine: choice-sequence generators, integrated shrinking, exhaustive phases,
//! sharded worker processes, crash and CPU-time confirmation in fresh processes, evidence.
pub mod alloc;
pub mod clock;
pub mod dict;
pub mod model;
pub mod pace;
pub mod run;
pub mod src;
pub mod turns;

pub use run::{main, Ctx, Phase, Prop, R};
pub use src::Src;

/// Fails the case with a message when the condition does not hold.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) {
            return Err(format!($($t)*));
        }
    };
}

/// Fails the case when the two values differ, showing both.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {}, expected {}", format!($($t)*), $crate::clip(a), $crate::clip(b)));
        }
    }};
}

/// The debug form of a value, cut when long.
pub fn clip<T: std::fmt::Debug + ?Sized>(t: &T) -> String {
    use std::fmt::Write;
    struct Short(String);
    impl Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.len() > 3000 {
                Err(std::fmt::Error)
            } else {
                Ok(())
            }
        }
    }
    let mut w = Short(String::new());
    if write!(w, "{:?}", t).is_err() {
        w.0 = w.0.chars().take(3000).collect();
        w.0.push_str("...");
    }
    w.0
}

/// Bytes as readable text.
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    let cut = b.len().min(400);
    for &c in &b[..cut] {
        match c {
            b'"' | b'\\' => {
                s.push('\\');
                s.push(c as char)
            }
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    if cut < b.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
