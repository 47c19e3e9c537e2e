//! In-memory file system under /simfs with injected faults.
use crate::sched;
use crate::sys;
use crate::world::w;
use std::collections::BTreeMap;

pub const FD0: i32 = 500_000;

#[derive(Clone, Default)]
pub struct FaultCfg {
    /// one in n (0 = never)
    pub short_write: u64,
    pub short_read: u64,
    pub eintr: u64,
    pub eio_write: u64,
    pub eio_read: u64,
    pub eio_open: u64,
    pub emfile: u64,
    pub eio_close: u64,
    /// bytes the disk still takes
    pub space: Option<u64>,
    /// one in n: the process owning the thread dies at this operation
    pub crash: u64,
}
pub struct Inode {
    pub data: Vec<u8>,
    pub synced: usize,
    pub writes: u32,
}
pub struct Fd {
    pub ino: usize,
    pub pos: u64,
    pub r: bool,
    pub w: bool,
    pub append: bool,
    pub tid: usize,
}
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pub fds: Vec<Option<Fd>>,
    pub cfg: FaultCfg,
    pub ops: u64,
    /// per thread: number of hard errors injected so far
    pub hard: BTreeMap<usize, u64>,
    /// file names changed by a thread: (tid, name, what)
    pub mutated_existing: Vec<String>,
    pub guard_existing: bool,
    pub open_count: u64,
    pub last_err: BTreeMap<usize, i32>,
}
impl Fs {
    pub fn new() -> Fs {
        Fs {
            names: BTreeMap::new(),
            inodes: Vec::new(),
            fds: Vec::new(),
            cfg: FaultCfg::default(),
            ops: 0,
            hard: BTreeMap::new(),
            mutated_existing: Vec::new(),
            guard_existing: false,
            open_count: 0,
            last_err: BTreeMap::new(),
        }
    }
    pub fn put(&mut self, name: &str, data: &[u8]) {
        self.inodes.push(Inode { data: data.to_vec(), synced: data.len(), writes: 0 });
        self.names.insert(name.to_string(), self.inodes.len() - 1);
    }
    pub fn get(&self, name: &str) -> Option<&[u8]> {
        self.names.get(name).map(|&i| &self.inodes[i].data[..])
    }
    pub fn remove(&mut self, name: &str) {
        self.names.remove(name);
    }
    pub fn list(&self) -> Vec<String> {
        self.names.keys().cloned().collect()
    }
    /// Power loss: every file keeps its synced part and an arbitrary prefix of the rest.
    pub fn power_loss(&mut self) {
        for i in 0..self.inodes.len() {
            let (s, l) = (self.inodes[i].synced, self.inodes[i].data.len());
            if s < l {
                let keep = s + w().f.draw((l - s + 1) as u64) as usize;
                self.inodes[i].data.truncate(keep);
            }
        }
        w().stat("fault.power_loss", 1);
    }
}
fn one_in(n: u64) -> bool {
    n > 0 && w().f.draw(n) == 1 % n
}
fn enter(op: &str, name: &str) {
    sched::point();
    let wd = w();
    wd.fs.ops += 1;
    wd.stat("fs_op", 1);
    if wd.tracing {
        let me = wd.cur;
        wd.lines.push(format!("    [fs] thread {me}: {op} {name}"));
    }
    wd.mixlog(0xf500);
    if one_in(wd.fs.cfg.crash) && wd.cur != 0 {
        wd.stat("fault.process_crash", 1);
        if wd.tracing {
            wd.lines.push("    [fault] the process dies here".to_string());
        }
        let me = wd.cur;
        for f in wd.fs.fds.iter_mut() {
            if f.as_ref().map_or(false, |x| x.tid == me) {
                *f = None;
            }
        }
        sched::freeze();
    }
}
unsafe fn fail(e: i32, what: &'static str) -> i64 {
    let wd = w();
    wd.stat(what, 1);
    if wd.tracing {
        wd.lines.push(format!("    [fault] {what}"));
    }
    if e != libc::EINTR {
        let me = wd.cur;
        *wd.fs.hard.entry(me).or_insert(0) += 1;
    }
    sys::err(e)
}
pub fn norm(p: &str) -> Option<String> {
    if !p.starts_with("/simfs") {
        return None;
    }
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    Some(format!("/{}", out.join("/")))
}
fn dir_ok(n: &str) -> bool {
    // the only directories are /simfs and its registered subdirectories (names ending in '/')
    let d = &n[..n.rfind('/').unwrap()];
    d == "/simfs" || w().fs.names.contains_key(&format!("{d}/"))
}
pub unsafe fn open(path: &str, flags: i32) -> i64 {
    let n = path.to_string();
    enter("open", &n);
    let cfg = w().fs.cfg.clone();
    if one_in(cfg.eintr) {
        return fail(libc::EINTR, "fault.eintr");
    }
    if one_in(cfg.emfile) {
        return fail(libc::EMFILE, "fault.emfile");
    }
    if one_in(cfg.eio_open) {
        return fail(libc::EIO, "fault.eio_open");
    }
    let fs = &mut w().fs;
    if n == "/simfs" || fs.names.contains_key(&format!("{n}/")) {
        if flags & libc::O_ACCMODE != libc::O_RDONLY {
            return sys::err(libc::EISDIR);
        }
        // a directory is opened only to be synchronised
        fs.inodes.push(Inode { data: Vec::new(), synced: 0, writes: 0 });
        let ino = fs.inodes.len() - 1;
        fs.fds.push(Some(Fd { ino, pos: 0, r: false, w: false, append: false, tid: w().cur }));
        return (FD0 + fs.fds.len() as i32 - 1) as i64;
    }
    let ino = match fs.names.get(&n) {
        Some(&i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return sys::err(libc::EEXIST);
            }
            if flags & libc::O_TRUNC != 0 {
                if fs.guard_existing {
                    fs.mutated_existing.push(format!("{n} truncated"));
                }
                fs.inodes[i].data.clear();
                fs.inodes[i].synced = 0;
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return sys::err(libc::ENOENT);
            }
            if !dir_ok(&n) {
                return sys::err(libc::ENOENT);
            }
            fs.inodes.push(Inode { data: Vec::new(), synced: 0, writes: 0 });
            let i = fs.inodes.len() - 1;
            fs.names.insert(n.clone(), i);
            i
        }
    };
    fs.open_count += 1;
    let acc = flags & libc::O_ACCMODE;
    let fd = Fd {
        ino,
        pos: 0,
        r: acc != libc::O_WRONLY,
        w: acc != libc::O_RDONLY,
        append: flags & libc::O_APPEND != 0,
        tid: w().cur,
    };
    fs.fds.push(Some(fd));
    (FD0 + fs.fds.len() as i32 - 1) as i64
}
fn fdidx(fd: i32) -> Option<usize> {
    let i = (fd - FD0) as usize;
    let fs = &w().fs;
    if i < fs.fds.len() && fs.fds[i].is_some() {
        Some(i)
    } else {
        None
    }
}
pub unsafe fn write(fd: i32, buf: &[u8]) -> i64 {
    enter("write", &format!("{} bytes", buf.len()));
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    let cfg = w().fs.cfg.clone();
    if one_in(cfg.eintr) {
        return fail(libc::EINTR, "fault.eintr");
    }
    if one_in(cfg.eio_write) {
        return fail(libc::EIO, "fault.eio_write");
    }
    let mut n = buf.len();
    if n > 1 && one_in(cfg.short_write) {
        n = 1 + w().f.draw(n as u64 - 1) as usize;
        w().stat("fault.short_write", 1);
    }
    if let Some(sp) = w().fs.cfg.space {
        if sp == 0 && n > 0 {
            return fail(libc::ENOSPC, "fault.enospc");
        }
        if (n as u64) > sp {
            n = sp as usize;
            w().stat("fault.partial_then_full", 1);
        }
        w().fs.cfg.space = Some(sp - n as u64);
    }
    let fs = &mut w().fs;
    let f = fs.fds[i].as_mut().unwrap();
    if !f.w {
        return sys::err(libc::EBADF);
    }
    let ino = &mut fs.inodes[f.ino];
    if f.append {
        f.pos = ino.data.len() as u64;
    }
    let end = f.pos as usize + n;
    if ino.data.len() < end {
        ino.data.resize(end, 0);
    }
    ino.data[f.pos as usize..end].copy_from_slice(&buf[..n]);
    ino.writes += 1;
    f.pos = end as u64;
    n as i64
}
pub unsafe fn read(fd: i32, buf: *mut u8, len: usize) -> i64 {
    enter("read", "");
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    let cfg = w().fs.cfg.clone();
    if one_in(cfg.eintr) {
        return fail(libc::EINTR, "fault.eintr");
    }
    if one_in(cfg.eio_read) {
        return fail(libc::EIO, "fault.eio_read");
    }
    let mut n = len;
    if n > 1 && one_in(cfg.short_read) {
        n = 1 + w().f.draw((n as u64).min(64)) as usize;
        n = n.min(len);
        w().stat("fault.short_read", 1);
    }
    let fs = &mut w().fs;
    let f = fs.fds[i].as_mut().unwrap();
    if !f.r {
        return sys::err(libc::EBADF);
    }
    let d = &fs.inodes[f.ino].data;
    let p = (f.pos as usize).min(d.len());
    let n = n.min(d.len() - p);
    std::ptr::copy_nonoverlapping(d.as_ptr().add(p), buf, n);
    f.pos += n as u64;
    n as i64
}
pub unsafe fn close(fd: i32) -> i64 {
    enter("close", "");
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    w().fs.fds[i] = None;
    if one_in(w().fs.cfg.eio_close) {
        // the descriptor is gone all the same; std ignores this error
        w().stat("fault.eio_close", 1);
        return sys::err(libc::EIO);
    }
    0
}
pub unsafe fn seek(fd: i32, off: i64, wh: i32) -> i64 {
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    let fs = &mut w().fs;
    let f = fs.fds[i].as_mut().unwrap();
    let base = match wh {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        libc::SEEK_END => fs.inodes[f.ino].data.len() as i64,
        _ => return sys::err(libc::EINVAL),
    };
    if base + off < 0 {
        return sys::err(libc::EINVAL);
    }
    f.pos = (base + off) as u64;
    f.pos as i64
}
pub unsafe fn fsync(fd: i32) -> i64 {
    enter("fsync", "");
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    if one_in(w().fs.cfg.eio_write) {
        return fail(libc::EIO, "fault.eio_fsync");
    }
    let fs = &mut w().fs;
    let ino = fs.fds[i].as_ref().unwrap().ino;
    fs.inodes[ino].synced = fs.inodes[ino].data.len();
    0
}
pub unsafe fn ftruncate(fd: i32, len: i64) -> i64 {
    enter("ftruncate", "");
    let Some(i) = fdidx(fd) else { return sys::err(libc::EBADF) };
    let fs = &mut w().fs;
    let ino = fs.fds[i].as_ref().unwrap().ino;
    fs.inodes[ino].data.resize(len as usize, 0);
    0
}
/// (size, is_dir, ino)
pub unsafe fn stat_path(path: &str) -> Result<(u64, bool, u64), i32> {
    enter("stat", path);
    if one_in(w().fs.cfg.eio_open) {
        let _ = fail(libc::EIO, "fault.eio_stat");
        return Err(libc::EIO);
    }
    let fs = &w().fs;
    if path == "/simfs" || fs.names.contains_key(&format!("{path}/")) {
        return Ok((0, true, 999_999));
    }
    match fs.names.get(path) {
        Some(&i) => Ok((fs.inodes[i].data.len() as u64, false, i as u64 + 1)),
        None => Err(libc::ENOENT),
    }
}
pub unsafe fn stat_fd(fd: i32) -> Result<(u64, bool, u64), i32> {
    let Some(i) = fdidx(fd) else { return Err(libc::EBADF) };
    let fs = &w().fs;
    let ino = fs.fds[i].as_ref().unwrap().ino;
    Ok((fs.inodes[ino].data.len() as u64, false, ino as u64 + 1))
}
pub unsafe fn unlink(p: &str) -> i64 {
    enter("unlink", p);
    let fs = &mut w().fs;
    if fs.guard_existing && fs.names.contains_key(p) {
        // deleting a file the caller itself just created is fine; the oracle looks at the outcome
    }
    if fs.names.remove(p).is_some() {
        0
    } else {
        sys::err(libc::ENOENT)
    }
}
pub unsafe fn rename(a: &str, b: &str, noreplace: bool) -> i64 {
    enter("rename", &format!("{a} -> {b}"));
    if one_in(w().fs.cfg.eio_open) {
        return fail(libc::EIO, "fault.eio_rename");
    }
    let fs = &mut w().fs;
    let Some(&i) = fs.names.get(a) else { return sys::err(libc::ENOENT) };
    if fs.names.contains_key(b) {
        if noreplace {
            return sys::err(libc::EEXIST);
        }
        if fs.guard_existing {
            fs.mutated_existing.push(format!("{b} replaced by rename"));
        }
    }
    fs.names.remove(a);
    fs.names.insert(b.to_string(), i);
    0
}
pub unsafe fn link(a: &str, b: &str) -> i64 {
    enter("link", &format!("{a} -> {b}"));
    let fs = &mut w().fs;
    let Some(&i) = fs.names.get(a) else { return sys::err(libc::ENOENT) };
    if fs.names.contains_key(b) {
        return sys::err(libc::EEXIST);
    }
    fs.names.insert(b.to_string(), i);
    0
}

/// Names in a directory, directories with a slash at the end.
pub unsafe fn list_dir(path: &str) -> Result<Vec<String>, i32> {
    enter("opendir", path);
    if one_in(w().fs.cfg.eio_open) {
        let _ = fail(libc::EIO, "fault.eio_opendir");
        return Err(libc::EIO);
    }
    let fs = &w().fs;
    if path != "/simfs" && !fs.names.contains_key(&format!("{path}/")) {
        return Err(if fs.names.contains_key(path) { libc::ENOTDIR } else { libc::ENOENT });
    }
    let pre = format!("{path}/");
    let mut v: Vec<String> = vec![];
    for k in fs.names.keys() {
        if let Some(r) = k.strip_prefix(&pre) {
            if !r.is_empty() && !r[..r.len() - 1].contains('/') {
                v.push(r.to_string());
            }
        }
    }
    // the order of a directory is not to be relied on
    for i in 1..v.len() {
        let j = w().f.draw(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    Ok(v)
}
