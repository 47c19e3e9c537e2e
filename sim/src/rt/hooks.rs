//! Interposed libc entry points: for threads of the simulated system everything nondeterministic is
//! answered by the simulator; every other thread of the process gets the real call.
use crate::sched::{self, managed, SLOT};
use crate::sys::{err, raw, ret};
use crate::vfs;
use crate::world::w;
use libc::{c_char, c_int, c_void, clockid_t, mode_t, off_t, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};
use std::ffi::CStr;

#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if managed() {
        let wd = w();
        match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
                let ns = wd.wall;
                (*ts).tv_sec = ns.div_euclid(1_000_000_000);
                (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
                wd.stat("clock_wall_read", 1);
            }
            _ => {
                (*ts).tv_sec = (wd.mono / 1_000_000_000) as i64;
                (*ts).tv_nsec = (wd.mono % 1_000_000_000) as i64;
                wd.stat("clock_mono_read", 1);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if managed() {
        let ns = w().wall;
        (*tv).tv_sec = ns.div_euclid(1_000_000_000);
        (*tv).tv_usec = ns.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    ret(raw(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let v = if managed() {
        w().wall.div_euclid(1_000_000_000)
    } else {
        let mut ts: timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as i64, 0, 0, 0, 0);
        ts.tv_sec
    };
    if !p.is_null() {
        *p = v;
    }
    v
}
unsafe fn fill(buf: *mut u8, len: usize) -> i64 {
    if len == 0 {
        return 0; // availability probe, made once per process
    }
    let wd = w();
    wd.entropy_reads += 1;
    wd.stat("entropy_read", 1);
    let mut i = 0;
    while i < len {
        let v = wd.entropy.next().to_le_bytes();
        let k = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), k);
        i += k;
    }
    wd.mixlog(0xe000 + len as u64);
    len as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    if managed() {
        return fill(buf as *mut u8, len) as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    if managed() {
        fill(buf as *mut u8, len);
        return 0;
    }
    raw(libc::SYS_getrandom, buf as i64, len as i64, 0, 0, 0, 0);
    0
}
unsafe fn deadline(clock_real: bool, absolute: bool, ts: *const timespec) -> u64 {
    if ts.is_null() {
        return sched::FOREVER;
    }
    let ns = ((*ts).tv_sec as i128) * 1_000_000_000 + (*ts).tv_nsec as i128;
    let wd = w();
    let d = if !absolute {
        wd.mono as i128 + ns
    } else if clock_real {
        wd.mono as i128 + (ns - wd.wall as i128).max(0)
    } else {
        ns
    };
    d.clamp(0, (u64::MAX - 1) as i128) as u64
}
/// variadic in C; on x86-64 the integer arguments arrive in the same registers
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if managed() {
        match n {
            libc::SYS_futex => {
                let op = b as i32;
                let real = op & libc::FUTEX_CLOCK_REALTIME != 0;
                let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
                match cmd {
                    libc::FUTEX_WAIT => {
                        let dl = deadline(real, false, d as *const timespec);
                        return sched::futex_wait(a as usize, c as u32, dl, u32::MAX);
                    }
                    libc::FUTEX_WAIT_BITSET => {
                        let dl = deadline(real, true, d as *const timespec);
                        return sched::futex_wait(a as usize, c as u32, dl, f as u32);
                    }
                    libc::FUTEX_WAKE => return sched::futex_wake(a as usize, c as u32 as u64, u32::MAX),
                    libc::FUTEX_WAKE_BITSET => return sched::futex_wake(a as usize, c as u32 as u64, f as u32),
                    _ => crate::run::harness_error(&format!("futex command {cmd} is not simulated")),
                }
            }
            libc::SYS_getrandom => return fill(a as *mut u8, b as usize),
            // the callers fall back to read and write
            libc::SYS_copy_file_range if simfd(a as c_int) || simfd(c as c_int) => return err(libc::EXDEV),
            libc::SYS_sendfile if simfd(a as c_int) || simfd(b as c_int) => return err(libc::EINVAL),
            libc::SYS_splice if simfd(a as c_int) || simfd(c as c_int) => return err(libc::EINVAL),
            libc::SYS_renameat2 => {
                if let (Some(x), Some(y)) = (sim(b as *const c_char), sim(d as *const c_char)) {
                    return vfs::rename(&x, &y, e as u32 & libc::RENAME_NOREPLACE != 0);
                }
            }
            libc::SYS_statx => {
                if simfd(a as c_int) || sim(b as *const c_char).is_some() {
                    return statx(a as c_int, b as *const c_char, c as c_int, d as libc::c_uint, e as *mut libc::statx) as i64;
                }
            }
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    start: Start,
    arg: *mut c_void,
    slot: usize,
    word: &'static std::sync::atomic::AtomicU32,
}
extern "C" fn at_exit(_: *mut c_void) {
    SLOT.with(|s| {
        if s.get() != usize::MAX {
            s.set(usize::MAX);
            sched::finish_thread();
        }
    });
}
extern "C" {
    fn __cxa_thread_atexit_impl(dtor: extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        // nothing of the world may be touched before the baton is here
        crate::sys::park(b.word);
        SLOT.with(|s| s.set(b.slot));
        __cxa_thread_atexit_impl(at_exit, std::ptr::null_mut(), &__dso_handle as *const u8 as *mut c_void);
        (b.start)(b.arg)
    }
}
unsafe fn next_sym(name: &CStr) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        crate::run::harness_error("dlsym");
    }
    p
}
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
static mut REAL_DETACH: usize = 0;
pub unsafe fn init() {
    REAL_CREATE = next_sym(c"pthread_create") as usize;
    REAL_JOIN = next_sym(c"pthread_join") as usize;
    REAL_DETACH = next_sym(c"pthread_detach") as usize;
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    if REAL_CREATE == 0 {
        init();
    }
    let f: extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int = std::mem::transmute(REAL_CREATE);
    if !managed() {
        return f(t, attr, start, arg);
    }
    let slot = sched::new_thread();
    let b = Box::into_raw(Box::new(Boot { start, arg, slot, word: w().th[slot].word }));
    let r = f(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        crate::run::harness_error("pthread_create failed");
    }
    let wd = w();
    wd.th[slot].pthread = *t as u64;
    wd.stat("thread_spawned", 1);
    wd.mixlog(0x7000);
    sched::point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    if REAL_JOIN == 0 {
        init();
    }
    let f: extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(REAL_JOIN);
    if managed() {
        let k = w().th.iter().rposition(|x| x.pthread == t as u64);
        if let Some(k) = k {
            sched::join(k);
        }
    }
    f(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if REAL_DETACH == 0 {
        init();
    }
    let f: extern "C" fn(pthread_t) -> c_int = std::mem::transmute(REAL_DETACH);
    f(t)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if managed() {
        sched::yield_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        sched::sleep_until(deadline(false, false, req));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        sched::sleep_until(deadline(id == libc::CLOCK_REALTIME, flags & libc::TIMER_ABSTIME != 0, req));
        return 0;
    }
    (-raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: size_t, set: *mut c_void) -> c_int {
    if managed() {
        std::ptr::write_bytes(set as *mut u8, 0, len);
        *(set as *mut u8) = 0xff; // the simulated machine has 8 processors
        return 0;
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as i64, len as i64, set as i64, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, len - r as usize);
    0
}

// ---------------------------------------------------------------- files
unsafe fn sim(p: *const c_char) -> Option<String> {
    if !managed() || p.is_null() {
        return None;
    }
    vfs::norm(&CStr::from_ptr(p).to_string_lossy())
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(n) = sim(p) {
        return vfs::open(&n, flags) as c_int;
    }
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(n) = sim(p) {
        return vfs::open(&n, flags) as c_int;
    }
    ret(raw(libc::SYS_openat, dfd as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dfd, p, flags, mode)
}
fn simfd(fd: c_int) -> bool {
    fd >= vfs::FD0 && managed()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return vfs::read(fd, b as *mut u8, n) as ssize_t;
    }
    ret(raw(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return vfs::write(fd, std::slice::from_raw_parts(b as *const u8, n)) as ssize_t;
    }
    if managed() && (fd == 1 || fd == 2) {
        w().stat("console_write", 1);
        return n as ssize_t;
    }
    ret(raw(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if managed() && (fd == 1 || fd == 2) {
        return (0..n as usize).map(|i| (*v.add(i)).iov_len).sum::<usize>() as ssize_t;
    }
    if simfd(fd) {
        let mut all = Vec::new();
        for i in 0..n as usize {
            let x = *v.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return vfs::write(fd, &all) as ssize_t;
    }
    ret(raw(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if simfd(fd) {
        let p = vfs::seek(fd, 0, libc::SEEK_CUR);
        vfs::seek(fd, off, libc::SEEK_SET);
        let r = vfs::write(fd, std::slice::from_raw_parts(b as *const u8, n));
        vfs::seek(fd, p, libc::SEEK_SET);
        return r as ssize_t;
    }
    ret(raw(libc::SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if simfd(fd) {
        let p = vfs::seek(fd, 0, libc::SEEK_CUR);
        vfs::seek(fd, off, libc::SEEK_SET);
        let r = vfs::read(fd, b as *mut u8, n);
        vfs::seek(fd, p, libc::SEEK_SET);
        return r as ssize_t;
    }
    ret(raw(libc::SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        return vfs::close(fd) as c_int;
    }
    ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if simfd(fd) {
        return vfs::seek(fd, o, wh);
    }
    ret(raw(libc::SYS_lseek, fd as i64, o, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, wh: c_int) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simfd(fd) {
        return vfs::fsync(fd) as c_int;
    }
    ret(raw(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if simfd(fd) {
        return vfs::ftruncate(fd, n) as c_int;
    }
    ret(raw(libc::SYS_ftruncate, fd as i64, n, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
unsafe fn fill_stat(r: Result<(u64, bool, u64), i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok((size, dir, ino)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_size = size as i64;
            (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
            (*st).st_ino = ino;
            (*st).st_nlink = 1;
            0
        }
        Err(e) => err(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(n) = sim(p) {
        return fill_stat(vfs::stat_path(&n), st);
    }
    ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, st as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(n) = sim(p) {
        return fill_stat(vfs::stat_path(&n), st);
    }
    ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, st as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if simfd(fd) {
        return fill_stat(vfs::stat_fd(fd), st);
    }
    ret(raw(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, flags: c_int, mask: libc::c_uint, b: *mut libc::statx) -> c_int {
    let r = if simfd(dfd) {
        Some(vfs::stat_fd(dfd))
    } else {
        sim(p).map(|n| vfs::stat_path(&n))
    };
    if let Some(r) = r {
        return match r {
            Ok((size, dir, ino)) => {
                std::ptr::write_bytes(b, 0, 1);
                (*b).stx_mask = libc::STATX_BASIC_STATS;
                (*b).stx_size = size;
                (*b).stx_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 } as u16;
                (*b).stx_ino = ino;
                (*b).stx_nlink = 1;
                0
            }
            Err(e) => err(e) as c_int,
        };
    }
    ret(raw(libc::SYS_statx, dfd as i64, p as i64, flags as i64, mask as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let Some(n) = sim(p) {
        return match vfs::stat_path(&n) {
            Ok(_) => 0,
            Err(e) => err(e) as c_int,
        };
    }
    ret(raw(libc::SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    if sim(p).is_some() {
        return access(p, m);
    }
    ret(raw(libc::SYS_faccessat, d as i64, p as i64, m as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(n) = sim(p) {
        return vfs::unlink(&n) as c_int;
    }
    ret(raw(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim(a), sim(b)) {
        return vfs::rename(&x, &y, false) as c_int;
    }
    ret(raw(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim(a), sim(b)) {
        return vfs::link(&x, &y) as c_int;
    }
    ret(raw(libc::SYS_link, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    if let (Some(x), Some(y)) = (sim(a), sim(b)) {
        return vfs::link(&x, &y) as c_int;
    }
    ret(raw(libc::SYS_linkat, d1 as i64, a as i64, d2 as i64, b as i64, fl as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(n) = sim(p) {
        let fs = &mut w().fs;
        let k = format!("{n}/");
        if n == "/simfs" || fs.names.contains_key(&k) || fs.names.contains_key(&n) {
            return err(libc::EEXIST) as c_int;
        }
        fs.put(&k, &[]);
        return 0;
    }
    ret(raw(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
struct SimDir {
    names: Vec<String>,
    at: usize,
    entry: libc::dirent64,
}
static mut DIRS: Vec<usize> = Vec::new();
#[allow(static_mut_refs)]
unsafe fn simdir(p: *mut libc::DIR) -> Option<&'static mut SimDir> {
    if managed() && DIRS.contains(&(p as usize)) {
        Some(&mut *(p as *mut SimDir))
    } else {
        None
    }
}
unsafe fn next(name: &str) -> usize {
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!f.is_null());
    f as usize
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if let Some(n) = sim(p) {
        return match vfs::list_dir(&n) {
            Ok(names) => {
                let d = Box::into_raw(Box::new(SimDir { names, at: 0, entry: std::mem::zeroed() }));
                DIRS.push(d as usize);
                d as *mut libc::DIR
            }
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next("opendir\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(p: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(d) = simdir(p) {
        let Some(n) = d.names.get(d.at) else { return std::ptr::null_mut() };
        d.at += 1;
        let dir = n.ends_with('/');
        d.entry = std::mem::zeroed();
        d.entry.d_ino = d.at as u64;
        d.entry.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
        for (i, b) in n.trim_end_matches('/').bytes().take(254).enumerate() {
            d.entry.d_name[i] = b as c_char;
        }
        return &mut d.entry;
    }
    let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next("readdir64\0"));
    f(p)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(p: *mut libc::DIR) -> c_int {
    if simdir(p).is_some() {
        DIRS.retain(|x| *x != p as usize);
        drop(Box::from_raw(p as *mut SimDir));
        return 0;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next("closedir\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(p: *mut libc::DIR) -> c_int {
    if simdir(p).is_some() {
        return -1;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next("dirfd\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if simfd(fd) {
        // the first buffer that takes anything
        for i in 0..n as usize {
            let x = *v.add(i);
            if x.iov_len > 0 {
                return vfs::read(fd, x.iov_base as *mut u8, x.iov_len) as ssize_t;
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
// the callers of these fall back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, fl: libc::c_uint) -> ssize_t {
    if simfd(a) || simfd(b) {
        return err(libc::EXDEV) as ssize_t;
    }
    ret(raw(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if simfd(a) || simfd(b) {
        return err(libc::EINVAL) as ssize_t;
    }
    ret(raw(libc::SYS_sendfile, b as i64, a as i64, o as i64, n as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(b: c_int, a: c_int, o: *mut i64, n: size_t) -> ssize_t {
    sendfile64(b, a, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, fl: libc::c_uint) -> ssize_t {
    if simfd(a) || simfd(b) {
        return err(libc::EINVAL) as ssize_t;
    }
    ret(raw(libc::SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfd(fd) {
        return 0;
    }
    ret(raw(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if simfd(fd) {
        return 0;
    }
    ret(raw(libc::SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim(a), sim(b)) {
        return vfs::rename(&x, &y, false) as c_int;
    }
    ret(raw(libc::SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dfd: c_int, p: *const c_char, fl: c_int) -> c_int {
    if let Some(n) = sim(p) {
        return vfs::unlink(&n) as c_int;
    }
    ret(raw(libc::SYS_unlinkat, dfd as i64, p as i64, fl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    if simfd(fd) {
        return 0;
    }
    -(raw(libc::SYS_fadvise64, fd as i64, a, b, c as i64, 0, 0) as c_int)
}
/// third argument is variadic in C
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if simfd(fd) {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR,
            _ => 0,
        };
    }
    ret(raw(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- instrumentation
pub const NCOV: usize = 1 << 17;
pub static mut COV: [u8; NCOV] = [0; NCOV];
pub static mut NGUARDS: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS.min(NCOV as u32 - 1);
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !sched::RUNNING {
        return;
    }
    COV[*g as usize] = 1;
    sched::STEPS += 1;
    if sched::STEPS >= sched::LIMIT {
        crate::run::limit_hit();
    }
    if sched::LIVE > 1 {
        sched::GAP -= 1;
        if sched::GAP <= 0 {
            sched::preempt();
        }
    }
}
