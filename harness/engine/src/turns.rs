//! Calls that must not know of one another: families of related arguments, and histories of calls on them.
use crate::run::{guarded, Ctx, R};
use crate::src::Src;

/// One change to a byte string of the kind that tells apart two strings a careless comparison takes for the same.
fn relative(s: &mut Src, base: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    let n = b.len();
    if n == 0 {
        return s.bytes(1);
    }
    // positions towards the end, the start, or anywhere
    let at = |s: &mut Src| match s.weighted(&[4, 2, 2, 3]) {
        0 => n - 1 - s.usize(n.min(4)),
        1 => s.usize(n.min(4)),
        2 => n / 2,
        _ => s.usize(n),
    };
    match s.weighted(&[6, 3, 2, 2, 2, 2, 2, 2, 2]) {
        0 => {
            let i = at(s);
            b[i] ^= match s.weighted(&[4, 1, 1]) {
                0 => 1,
                1 => 1 << s.usize(8),
                _ => 1 + s.byte() % 255,
            };
        }
        1 => {
            // the same bytes in another order
            let (i, j) = (at(s), s.usize(n));
            b.swap(i, j);
        }
        2 => {
            // the same sum
            let (i, j) = (at(s), s.usize(n));
            if i != j {
                b[i] = b[i].wrapping_add(1);
                b[j] = b[j].wrapping_sub(1);
            }
        }
        3 => {
            // the same exclusive or
            let (i, j, x) = (at(s), s.usize(n), 1 << s.usize(8));
            if i != j {
                b[i] ^= x;
                b[j] ^= x;
            }
        }
        4 => {
            // cut short
            let k = 1 + s.usize(n.min(9));
            b.truncate(n - k.min(n));
        }
        5 => {
            let k = 1 + s.usize(3);
            let x = if s.bool() { 0 } else { s.byte() };
            b.extend(std::iter::repeat(x).take(k));
        }
        6 => {
            // the same start and end, all else different
            let (k, l) = (*s.pick(&[1, 2, 4, 8, 16, 20, 32, 64]), s.usize(9));
            for x in b.iter_mut().take(n.saturating_sub(l)).skip(k.min(n)) {
                *x ^= 1;
            }
        }
        7 => {
            // the same parts in another order
            let k = s.usize(n);
            b.rotate_left(k);
        }
        _ => {
            // the same value of a polynomial, or the same sum of sums
            let (m, i) = (*s.pick(&[31i32, 33, 37, 17, 2, 3, 7]), at(s).min(n.saturating_sub(3)));
            let d: &[i32] = if s.chance(1, 3) { &[1, -2, 1] } else { &[1, -m] };
            let d: Vec<i32> = if s.bool() { d.to_vec() } else { d.iter().map(|x| -x).collect() };
            // the first place from there on, around the end if need be, where it fits
            let fits = |i: usize| i + d.len() <= n && d.iter().enumerate().all(|(k, x)| (0..256).contains(&(b[i + k] as i32 + x)));
            if let Some(i) = (i..n).chain(0..i).find(|&i| fits(i)) {
                for (k, x) in d.iter().enumerate() {
                    b[i + k] = (b[i + k] as i32 + x) as u8;
                }
            } else {
                b[n - 1] ^= 1;
            }
        }
    }
    b
}

/// A base and strings related to it and to one another, the base first.
pub fn family(s: &mut Src, base: Vec<u8>, most: usize) -> Vec<Vec<u8>> {
    let mut all = vec![base];
    for _ in 0..1 + s.usize(most) {
        let from = if s.chance(3, 4) { 0 } else { s.usize(all.len()) };
        let b = s.span(|s| relative(s, &all[from].clone()));
        all.push(b);
    }
    all
}

/// A history of calls: each step names a call and an argument.
#[derive(Clone, Debug)]
pub struct Steps {
    /// (which call, which argument)
    pub steps: Vec<(usize, usize)>,
    /// every argument is copied to the same place
    pub place: bool,
    /// this many threads make the calls at the same time
    pub threads: usize,
}

pub fn steps(s: &mut Src, calls: usize, arguments: usize) -> Steps {
    // mostly a single kind of call
    let one = if s.chance(2, 3) { Some(s.usize(calls)) } else { None };
    let mut steps = vec![];
    for _ in 0..3 + s.usize(8) {
        let last: Option<&(usize, usize)> = steps.last();
        let k = match (one, last) {
            (Some(k), _) => k,
            (None, Some(l)) if s.bool() => l.0,
            _ => s.usize(calls),
        };
        steps.push(s.span(|s| (k, s.usize(arguments))));
    }
    let place = s.bool();
    let threads = if s.chance(1, 24) { 2 + s.usize(3) } else { 1 };
    Steps { steps, place, threads }
}

impl Steps {
    /// Makes the calls; `call`, given its kind and the argument's number and bytes, is to judge each from these alone.
    pub fn run(&self, c: &mut Ctx, arguments: &[Vec<u8>], call: impl Fn(usize, usize, &[u8]) -> R + Sync) -> R {
        c.label_if(self.place, "arguments in the same place");
        c.label_if(self.threads > 1, "several threads");
        let once = |from: usize| -> R {
            let mut place = Vec::with_capacity(arguments.iter().map(|a| a.len()).max().unwrap_or(0));
            for i in 0..self.steps.len() {
                let (k, a) = self.steps[(from + i) % self.steps.len()];
                let r = if self.place {
                    place.clear();
                    place.extend_from_slice(&arguments[a]);
                    call(k, a, &place)
                } else {
                    call(k, a, &arguments[a])
                };
                r.map_err(|e| format!("call {} of {}: {}", i + 1, self.steps.len(), e))?;
            }
            Ok(())
        };
        if self.threads == 1 {
            return once(0);
        }
        std::thread::scope(|s| {
            let all: Vec<_> = (0..self.threads)
                .map(|t| {
                    let once = &once;
                    s.spawn(move || guarded(|| (0..40).try_for_each(|k| once(t * 3 + k))))
                })
                .collect();
            all.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect::<R>()
        })
        .map_err(|e| format!("with {} threads: {}", self.threads, e))
    }
}

/// A case of one kind of call on arguments related to `base`.
pub fn twins(c: &mut Ctx, base: Vec<u8>, call: impl Fn(&[u8]) -> R + Sync) -> R {
    let all = family(&mut c.s, base, 3);
    let st = steps(&mut c.s, 1, all.len());
    c.key(&(&all, &st.steps, st.place, st.threads));
    c.nontrivial(true);
    c.label("related arguments in turn");
    c.show(|| {
        let order: Vec<usize> = st.steps.iter().map(|x| x.1).collect();
        let args: Vec<String> = all.iter().enumerate().map(|(i, a)| format!("#{} = {}", i, crate::show(a))).collect();
        format!("in the order {:?}{}, {} thread(s): {}", order, if st.place { ", in the same place" } else { "" }, st.threads, args.join(", "))
    });
    st.run(c, &all, |_, _, b| call(b))
}
