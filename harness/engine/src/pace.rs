//! Bounds on the CPU time of calls.
use crate::run::R;

/// CPU seconds this thread has used.
pub fn cpu() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// The CPU seconds of a call.
pub fn time<T>(f: impl FnOnce() -> T) -> (f64, T) {
    let t = cpu();
    let x = f();
    (cpu() - t, x)
}
/// Fails if every one of four runs of `f` takes more than `limit` CPU seconds.
pub fn within(what: &str, limit: f64, mut f: impl FnMut()) -> R {
    let mut least = f64::MAX;
    for _ in 0..4 {
        least = least.min(time(&mut f).0);
        if least <= limit {
            return Ok(());
        }
        if least > 6.0 {
            break;
        }
    }
    Err(format!("{} takes {:.2} s of CPU time, more than {:.2} s", what, least, limit))
}
