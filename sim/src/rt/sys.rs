//! Raw system calls (never intercepted).
use std::arch::asm;
#[inline(never)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// libc convention: -1 and errno
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn err(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn park(word: &std::sync::atomic::AtomicU32) {
    use std::sync::atomic::Ordering::*;
    loop {
        if word.swap(0, AcqRel) == 1 {
            return;
        }
        unsafe {
            raw(libc::SYS_futex, word as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
        }
    }
}
pub fn unpark(word: &std::sync::atomic::AtomicU32) {
    word.store(1, std::sync::atomic::Ordering::Release);
    unsafe {
        raw(libc::SYS_futex, word as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
