use simrt::*;
pub const P: Prop = Prop { id: "SMOKE", quick: 2000, thorough: 10000, chunk: 200, f: run, rule: "", real: "", stub: "" };
fn run() {
    nontrivial();
    let a = std::collections::hash_map::RandomState::new();
    use std::hash::BuildHasher;
    note(format!("{:x}", a.hash_one(5)));
    note(format!("{:?}", ms_toollib::laymine_op(9, 9, 10, 0, 0)));
    let t = std::time::Instant::now();
    advance(1_000_000);
    check!(t.elapsed().as_millis() == 1, "clock", "clock");
    std::fs::write("/simfs/a.txt", b"hello").unwrap();
    check!(std::path::Path::new("/simfs/a.txt").exists(), "fs", "exists");
    check!(std::fs::read("/simfs/a.txt").unwrap() == b"hello", "fs", "read");
    std::fs::copy("/simfs/a.txt", "/simfs/b.txt").unwrap();
    std::fs::rename("/simfs/b.txt", "/simfs/c.txt").unwrap();
    check!(!std::path::Path::new("/simfs/b.txt").exists(), "fs", "renamed away");
    let mut f: Vec<String> =
        std::fs::read_dir("/simfs").unwrap().map(|e| e.unwrap().path().to_string_lossy().into_owned()).collect();
    f.sort();
    check!(f == ["/simfs/a.txt", "/simfs/c.txt"], "fs", "listing {f:?}");
    check!(std::fs::metadata("/simfs/c.txt").unwrap().len() == 5, "fs", "len");
    {
        use std::io::{Read, Seek, SeekFrom, Write};
        let mut h = std::fs::OpenOptions::new().read(true).write(true).open("/simfs/c.txt").unwrap();
        h.seek(SeekFrom::End(0)).unwrap();
        h.write_all(b" you").unwrap();
        h.sync_all().unwrap();
        h.seek(SeekFrom::Start(3)).unwrap();
        let (mut x, mut y) = ([0u8; 2], [0u8; 9]);
        let n = h.read_vectored(&mut [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut y)]).unwrap();
        check!(n == 2 && &x == b"lo", "fs", "readv {n}");
        check!(h.read(&mut y).unwrap() == 4 && &y[..4] == b" you", "fs", "read on");
        h.set_len(2).unwrap();
    }
    check!(std::fs::read("/simfs/c.txt").unwrap() == b"he", "fs", "truncated");
    std::fs::remove_file("/simfs/c.txt").unwrap();
    check!(!std::path::Path::new("/simfs/c.txt").exists(), "fs", "removed");
    let (b, ok) = sut("thread", || ms_toollib::laymine_solvable_thread(9, 9, 10, 0, 0, 10));
    note(format!("{ok} {:?}", b));
    check!(live() == 0, "leak", "threads left");
    sig(ok as u64);
}
fn live() -> usize { simrt::sched::live_others() }
