//! Process-wide sources of nondeterminism below tokio: the system clock and entropy.  The definitions here win
//! over libc's at link time; outside a simulation they forward to the system call.
use tokio::sim::{CLOCK, ENTROPY};

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let c = CLOCK.try_with(|c| c.get()).unwrap_or(0);
    if c != 0 {
        // monotonic clocks start at 10^6 s, the wall clock in 2023
        let base: u64 = if clk == libc::CLOCK_REALTIME { 1_700_000_000 } else { 1_000_000 };
        let ns = c - 1;
        (*ts).tv_sec = (base + ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

fn fill(buf: *mut u8, len: usize) -> bool {
    ENTROPY
        .try_with(|e| {
            let mut s = e.get();
            if s == 0 {
                return false;
            }
            for i in 0..len {
                if i % 8 == 0 {
                    s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                }
                let mut z = s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^= z >> 31;
                unsafe { *buf.add(i) = (z >> (8 * (i % 8))) as u8 };
            }
            if s == 0 {
                s = 1;
            }
            e.set(s);
            true
        })
        .unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if fill(buf as *mut u8, len) {
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: libc::size_t) -> libc::c_int {
    if fill(buf as *mut u8, len) {
        return 0;
    }
    if libc::syscall(libc::SYS_getrandom, buf, len, 0) == len as i64 {
        0
    } else {
        -1
    }
}

/// AWS-LC's generator (see build.rs): its state outlives a run and its seeds come from measurements of time.
unsafe fn rand_bytes(buf: *mut u8, len: usize) -> libc::c_int {
    if fill(buf, len) {
        return 1;
    }
    let mut n = 0;
    while n < len {
        let k = libc::syscall(libc::SYS_getrandom, buf.add(n), len - n, 0);
        if k < 0 {
            return 0;
        }
        n += k as usize;
    }
    1
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_aws_lc_0_47_0_RAND_bytes(buf: *mut u8, len: usize) -> libc::c_int {
    rand_bytes(buf, len)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_aws_lc_0_47_0_RAND_bytes_with_user_prediction_resistance(buf: *mut u8, len: usize, _: *const u8) -> libc::c_int {
    rand_bytes(buf, len)
}
