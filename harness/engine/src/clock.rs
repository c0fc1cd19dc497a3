//! A clock that a case can move forward: `clock_gettime` is defined here, in front of the system's, and adds what `advance` asked
//! for, per thread. Code under test that looks at the time (as `Instant::now`) sees time pass without anything waiting for it.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static AHEAD: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
static REAL: AtomicUsize = AtomicUsize::new(0);

/// Moves this thread's clocks forward. They never go back.
pub fn advance(ms: u64) {
    AHEAD.with(|a| {
        let (s, n) = a.get();
        let n = n + (ms % 1000) as i64 * 1_000_000;
        a.set((s + (ms / 1000) as i64 + n / 1_000_000_000, n % 1_000_000_000))
    });
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let mut f = REAL.load(Ordering::Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as usize;
        REAL.store(f, Ordering::Relaxed);
    }
    let f: unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int = std::mem::transmute(f);
    let rc = f(id, t);
    if rc == 0 && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
        let (s, n) = AHEAD.try_with(|a| a.get()).unwrap_or((0, 0));
        (*t).tv_sec += s;
        (*t).tv_nsec += n;
        if (*t).tv_nsec >= 1_000_000_000 {
            (*t).tv_sec += 1;
            (*t).tv_nsec -= 1_000_000_000;
        }
    }
    rc
}

#[cfg(test)]
mod test {
    #[test]
    fn moves() {
        let a = std::time::Instant::now();
        super::advance(7_200_900);
        super::advance(200);
        let d = a.elapsed().as_secs();
        assert!(d == 7201, "{}", d);
        std::thread::spawn(move || assert!(a.elapsed().as_secs() < 5)).join().unwrap();
    }
}
