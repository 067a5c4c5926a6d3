//! Reading files (spec/ReadOps.tla). Everything happens in a scratch directory below the directory of the output file.
use crate::json::J;
use essay_tensor::io::read_file;
use essay_tensor::tensor::Tensor;
use std::ffi::CString;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::fs::OpenOptionsExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn ioctl(fd: i32, req: u64, arg: *mut i32) -> i32;
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// What the system does with the calls that read the file under test (spec/Read.tla): how much each call
/// delivers at most, and what happens to the file when the first one is made.
struct Plan { dev: u64, ino: u64, caps: Vec<usize>, calls: usize, fired: bool, first: Option<Box<dyn FnMut()>> }
thread_local! { static PLAN: std::cell::RefCell<Option<Plan>> = const { std::cell::RefCell::new(None) }; }

/// The buffer size this call may use, when it reads the file under test.
fn portion(fd: i32, n: usize) -> usize {
    PLAN.with(|p| {
        let Ok(mut p) = p.try_borrow_mut() else { return n };
        let Some(p) = p.as_mut() else { return n };
        let f = std::mem::ManuallyDrop::new(unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) });
        let Ok(m) = f.metadata() else { return n };
        use std::os::unix::fs::MetadataExt;
        if m.dev() != p.dev || m.ino() != p.ino || n == 0 { return n; }
        if let Some(mut f) = p.first.take() { f(); p.fired = true; }
        if p.caps.is_empty() { return n; }
        p.calls += 1;
        n.min(p.caps[(p.calls - 1) % p.caps.len()])
    })
}
// the process's own read calls go through these instead of the C library's
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    syscall(0, fd as i64, buf, portion(fd, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize {
    syscall(17, fd as i64, buf, portion(fd, n), at) as isize
}
#[repr(C)]
pub struct IoVec { base: *mut u8, len: usize }
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, k: i32) -> isize {
    // one buffer at a time is a legitimate answer
    for i in 0..k as usize {
        let b = &*v.add(i);
        if b.len > 0 { return read(fd, b.base, b.len); }
    }
    0
}

/// Reads with the plan in force.
fn with_plan<R>(path: &Path, caps: Vec<usize>, first: Option<Box<dyn FnMut()>>, f: impl FnOnce() -> R) -> (R, bool) {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(path).unwrap();
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { dev: m.dev(), ino: m.ino(), caps, calls: 0, fired: false, first }));
    let r = f();
    let p = PLAN.with(|p| p.borrow_mut().take()).unwrap();
    (r, p.fired)
}

const FIONREAD: u64 = 0x541B;
const O_NONBLOCK: i32 = 0o4000;

fn byte(seed: i64, i: i64) -> u8 { ((seed * 31 + i * 7 + (i * i) % 13) % 256) as u8 }

fn load(name: &str, form: i64) -> Option<std::io::Result<(Vec<usize>, Vec<u8>)>> {
    let name = name.to_string();
    catch_unwind(AssertUnwindSafe(|| {
        let r = match form {
            0 => read_file(name.as_str()),
            1 => read_file(Tensor::<String>::from(name.clone())),
            2 => read_file(Tensor::<String>::from(vec!["/nonexistent/first".to_string(), name.clone()]).subslice(1, 1)),
            _ => read_file(Tensor::<String>::from(vec![name.clone(), "/nonexistent/second".to_string()])),
        };
        r.map(|t| (t.shape().as_vec(), t.as_slice().to_vec()))
    })).ok()
}

pub fn row(e: &J, scratch: &Path) -> J {
    let dir = scratch.join(format!("read-{}", e.int("id")));
    std::fs::create_dir_all(&dir).unwrap();
    let r = row_in(e, &dir);
    std::fs::remove_dir_all(&dir).unwrap();
    r
}

fn row_in(e: &J, dir: &Path) -> J {
    let (seed, ch, form) = (e.int("seed"), e.uss("ch"), e.int("form"));
    let total: usize = ch.iter().sum();
    let content: Vec<u8> = (1..=total as i64).map(|i| byte(seed, i)).collect();
    let f = dir.join("file");
    let path = f.to_str().unwrap().to_string();
    let mut e = e.clone();
    let r = match e.str("k") {
        "file" => { std::fs::write(&f, &content).unwrap(); load(&path, form) }
        "link" => { std::fs::write(dir.join("target"), &content).unwrap(); std::os::unix::fs::symlink(dir.join("target"), &f).unwrap(); load(&path, form) }
        "missing" => load(&path, form),
        "dangling" => { std::os::unix::fs::symlink(dir.join("none"), &f).unwrap(); load(&path, form) }
        "dir" => load(dir.to_str().unwrap(), form),
        "nodir" => load(&format!("{}/a/b", path), form),
        "empty_name" => load("", form),
        k @ ("proc" | "sys") => {
            // a file reporting length 0, and one reporting more than it delivers
            let p = if k == "proc" { "/proc/self/cmdline" } else { "/sys/kernel/mm/transparent_hugepage/enabled" };
            let a = std::fs::read(p).ok();
            let r = load(p, form);
            let b = std::fs::read(p).ok();
            let there = a.is_some() && a == b;
            e.set("there", there);
            e.set("want", J::Arr(a.unwrap_or_default().iter().map(|x| J::Int(*x as i64)).collect()));
            r
        }
        "portions" | "big" | "grow" | "shrink" => {
            let (keep, caps) = (e.us("keep"), e.uss("caps"));
            let grow = e.str("k") == "grow";
            std::fs::write(&f, if grow { &content[..ch[0]] } else { &content[..] }).unwrap();
            let (rest, g) = (if grow { content[ch[0]..].to_vec() } else { vec![] }, f.clone());
            let first: Option<Box<dyn FnMut()>> = if e.str("k") == "portions" || e.str("k") == "big" { None } else {
                Some(Box::new(move || {
                    let mut o = std::fs::OpenOptions::new().write(true).append(!rest.is_empty()).open(&g).unwrap();
                    if rest.is_empty() { o.set_len(keep as u64).unwrap(); } else { o.write_all(&rest).unwrap(); }
                }))
            };
            let (r, fired) = with_plan(&f, caps, first, || load(&path, form));
            e.set("fired", fired);
            if e.str("k") == "big" {
                return match r {
                    Some(Ok((s, d))) => {
                        let n = total;
                        let at: Vec<usize> = [1, 2, 4096, 65536, 65537, 1048576, 1048577, 16777216, 16777217, n / 2, n - 1, n].into_iter().filter(|i| *i >= 1 && *i <= n).collect();
                        let differ = d.iter().zip(&content).filter(|(a, b)| a != b).count();
                        e.with("out", "ok").with("rsh", s).with("differ", differ)
                            .with("el", at.iter().map(|i| d.get(*i - 1).map_or(-1, |x| *x as i64)).collect::<Vec<_>>())
                    }
                    Some(Err(_)) => e.with("out", "err"),
                    None => e.with("out", "panic"),
                };
            }
            r
        }
        _ => {
            let c = CString::new(path.clone()).unwrap();
            assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
            let done = Arc::new(AtomicBool::new(false));
            let (d2, p2) = (done.clone(), path.clone());
            let w = std::thread::spawn(move || writer(&p2, &ch, &content, &d2));
            let r = load(&path, form);
            done.store(true, Ordering::SeqCst);
            let werr = w.join().unwrap();
            e.set("werr", werr);
            r
        }
    };
    match r {
        None => e.with("out", "panic"),
        Some(Err(_)) => e.with("out", "err"),
        Some(Ok((s, d))) => e.with("out", "ok").with("rsh", J::Arr(s.iter().map(|x| J::Int(*x as i64)).collect()))
            .with("el", J::Arr(d.iter().map(|x| J::Int(*x as i64)).collect())),
    }
}

/// writes portion after portion, each once the previous one has been taken
fn writer(path: &str, ch: &[usize], content: &[u8], done: &AtomicBool) -> &'static str {
    let end = Instant::now() + Duration::from_secs(5);
    let mut f = loop {
        match std::fs::OpenOptions::new().write(true).custom_flags(O_NONBLOCK).open(path) {
            Ok(f) => break f,
            Err(_) if done.load(Ordering::SeqCst) || Instant::now() > end => return "",
            Err(_) => std::thread::sleep(Duration::from_micros(100)),
        }
    };
    let mut at = 0;
    for c in ch {
        let to = at + c;
        let end = Instant::now() + Duration::from_secs(5);
        while at < to {
            match f.write(&content[at..to]) {
                Ok(n) => at += n,
                Err(x) if x.kind() == std::io::ErrorKind::BrokenPipe => return "",       // the reader has gone
                Err(_) if done.load(Ordering::SeqCst) => return "",
                Err(_) if Instant::now() > end => return "the system did not take the data",
                Err(_) => std::thread::sleep(Duration::from_micros(200)),
            }
        }
        let end = Instant::now() + Duration::from_millis(500);
        loop {
            let mut n = 0;
            unsafe { ioctl(f.as_raw_fd(), FIONREAD, &mut n) };
            if n == 0 || done.load(Ordering::SeqCst) || Instant::now() > end { break; }
            std::thread::sleep(Duration::from_micros(50));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    ""
}
