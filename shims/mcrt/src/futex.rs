//! Takes over `syscall(SYS_futex, ...)` as used by std's Mutex, RwLock, Condvar and Once, so that a
//! blocking operation of a controlled coroutine becomes a scheduler decision instead of blocking the
//! OS thread that carries all coroutines of the execution.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// # Safety
/// Same contract as libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        let cmd = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET)
            && crate::sched::in_coroutine()
            && !std::thread::panicking()
        {
            let addr = a as usize;
            let want = c as u32;
            let timed = d != 0;
            if timed {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            if is_static(addr) {
                // A process-wide initializer or lock, most likely held by another worker.
                for _ in 0..100 {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
                    let r = raw(
                        libc::SYS_futex,
                        [
                            a,
                            (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
                            c,
                            &ts as *const _ as i64,
                            0,
                            0,
                        ],
                    );
                    if r != -(libc::ETIMEDOUT as i64) || load(addr) != want {
                        return 0;
                    }
                }
            }
            crate::sched::block_futex(addr, want);
            return 0;
        }
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

fn is_static(addr: usize) -> bool {
    unsafe { addr >= &__executable_start as *const u8 as usize && addr < &_end as *const u8 as usize }
}

pub(crate) fn load(addr: usize) -> u32 {
    unsafe { (*(addr as *const AtomicU32)).load(SeqCst) }
}

/// What a controlled coroutine reads off the clock is virtual time.
///
/// # Safety
/// Same contract as libc's `clock_gettime`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut libc::timespec) -> i32 {
    let base = match clock {
        libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME => 1_000_000,
        libc::CLOCK_REALTIME => 1_700_000_000,
        _ => 0,
    };
    if base != 0 && crate::sched::in_coroutine() && !std::thread::panicking() {
        let now = crate::sched::now();
        (*ts).tv_sec = base + now.as_secs() as i64;
        (*ts).tv_nsec = i64::from(now.subsec_nanos());
        return 0;
    }
    let r = raw(libc::SYS_clock_gettime, [clock as i64, ts as i64, 0, 0, 0, 0]);
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    0
}

/// Forces this object file to be linked in.
pub fn init() {
    std::hint::black_box(syscall as *const () as usize);
    std::hint::black_box(clock_gettime as *const () as usize);
}
