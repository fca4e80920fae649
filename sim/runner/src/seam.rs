//! libc-level nondeterminism seams: randomness and clocks. On a simulation thread they are a pure function of
//! the run's seed and of simulated time; on every other thread they are the real system calls.
use std::cell::Cell;

thread_local! {
    static RAND: Cell<Option<u64>> = const { Cell::new(None) };
    static NOW_NS: Cell<u64> = const { Cell::new(0) };
}

pub fn enter(seed: u64) {
    RAND.with(|r| r.set(Some(seed ^ 0x9e37_79b9_7f4a_7c15)));
    NOW_NS.with(|n| n.set(0));
}
pub fn leave() { RAND.with(|r| r.set(None)); }
pub fn set_now(ns: u64) { NOW_NS.with(|n| n.set(ns)); }

fn next() -> Option<u64> {
    RAND.try_with(|r| {
        r.get().map(|s| {
            let s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            r.set(Some(s));
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        })
    }).ok().flatten()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let mut i = 0usize;
    while i < len {
        match next() {
            Some(v) => {
                for b in v.to_le_bytes() {
                    if i < len { *(buf as *mut u8).add(i) = b; i += 1; }
                }
            }
            None => return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t,
        }
    }
    len as libc::ssize_t
}

const EPOCH: u64 = 1_700_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if RAND.try_with(|r| r.get().is_some()).unwrap_or(false) {
        let ns = NOW_NS.try_with(|n| n.get()).unwrap_or(0);
        (*ts).tv_sec = (EPOCH + ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
