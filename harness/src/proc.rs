//! Running a piece of code in a forked child with a time limit; the child reports through shared memory.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[repr(C)]
pub struct Shared { pub op: AtomicU32, pub done: AtomicU32, len: AtomicU32, pub flag: AtomicU32, panicked: AtomicU32, msg: [u8; 65536] }
static mut SH: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static Shared {
    unsafe {
        if SH.is_null() {
            SH = libc::syscall(libc::SYS_mmap, 0usize, std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1i64, 0usize) as *mut Shared;
        }
        &*SH
    }
}
pub fn put_msg(m: &str) {
    let s = shared();
    let b = m.as_bytes();
    let n = b.len().min(65536);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), s.msg.as_ptr() as *mut u8, n); }
    s.len.store(n as u32, SeqCst);
}
fn get_msg() -> String { let s = shared(); String::from_utf8_lossy(&s.msg[..s.len.load(SeqCst) as usize]).into_owned() }

#[derive(Debug, Clone, PartialEq)]
pub enum End { Ok(String), Fail(String), Panic(String), Hang, Crashed, Died(i32) }

pub const ST_OK: u32 = 1;
pub const ST_FAIL: u32 = 2;

/// forks, runs `f` in the child, waits. `f` returns Ok(text) or Err(text).
pub fn fork_run(limit: Duration, f: impl FnOnce() -> Result<String, String>) -> End {
    let s = shared();
    s.op.store(0, SeqCst); s.done.store(0, SeqCst); s.len.store(0, SeqCst); s.flag.store(0, SeqCst); s.panicked.store(0, SeqCst);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            std::panic::set_hook(Box::new(|i| {
                let s = shared();
                if s.panicked.swap(1, SeqCst) == 0 {
                    let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
                    put_msg(&format!("panic at {l}: {m}"));
                }
            }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if s.panicked.load(SeqCst) == 0 {
                match r {
                    Ok(Ok(m)) => { put_msg(&m); s.done.store(ST_OK, SeqCst); }
                    Ok(Err(m)) => { put_msg(&m); s.done.store(ST_FAIL, SeqCst); }
                    Err(_) => {}
                }
            }
            libc::_exit(0);
        }
        let t0 = Instant::now();
        let mut st = 0;
        let mut nap = 100;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid { break; }
            if t0.elapsed() > limit {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                if s.panicked.load(SeqCst) == 1 { return End::Panic(get_msg()); }
                return End::Hang;
            }
            libc::usleep(nap);
            if nap < 1000 { nap += 50; }
        }
        if s.panicked.load(SeqCst) == 1 { return End::Panic(get_msg()); }
        if libc::WIFEXITED(st) {
            let c = libc::WEXITSTATUS(st);
            if c == crate::inter::CRASH_CODE { return End::Crashed; }
            if c != 0 { return End::Died(c); }
            match s.done.load(SeqCst) { ST_OK => End::Ok(get_msg()), ST_FAIL => End::Fail(get_msg()), _ => End::Died(0) }
        } else { End::Died(-libc::WTERMSIG(st)) }
    }
}
pub fn set_op(i: u32) { shared().op.store(i, SeqCst) }
pub fn get_op() -> u32 { shared().op.load(SeqCst) }

pub fn fresh(dir: &std::path::Path) { std::fs::remove_dir_all(dir).ok(); std::fs::create_dir_all(dir).unwrap(); }
/// copies a directory of (sparse) shard files
pub fn copy_dir(a: &std::path::Path, b: &std::path::Path) {
    fresh(b);
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        let n = e.file_name();
        if n == ".lock" { continue; }
        std::fs::copy(e.path(), b.join(n)).unwrap();
    }
}
