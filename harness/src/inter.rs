//! In-process interposition of the file-system calls candystore makes, and trapping of its stores to mmap-ed
//! shard headers. Used to stop the process (crash points), to pause a thread (preemption points), to delay the
//! compaction thread, and to observe fdatasync. Only this process is affected.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub static ARMED: AtomicBool = AtomicBool::new(false); // count events and trap stores
pub static CRASH_AT: AtomicI64 = AtomicI64::new(-1); // _exit before the n-th event
pub static TORN: AtomicBool = AtomicBool::new(false); // at the crash point, do half of a pwrite first
pub static EVENTS: AtomicI64 = AtomicI64::new(0);
pub static PAUSE_AT: AtomicI64 = AtomicI64::new(-1); // role-A thread pauses before its n-th event
pub static PAUSED: AtomicBool = AtomicBool::new(false);
pub static RESUME: AtomicBool = AtomicBool::new(false);
pub static A_EVENTS: AtomicI64 = AtomicI64::new(0);
pub static COMPACT_DELAY_US: AtomicUsize = AtomicUsize::new(0);
pub static COMPACT_GATE: AtomicBool = AtomicBool::new(false); // compaction writes wait while set
pub static COMPACT_GATE_AFTER: AtomicI64 = AtomicI64::new(0);
pub static COMPACT_WRITES: AtomicI64 = AtomicI64::new(0);
pub static FAIL_SYNC: AtomicBool = AtomicBool::new(false);
pub static RND_DELAY: AtomicU64 = AtomicU64::new(0);
pub const CRASH_CODE: i32 = 77;

thread_local! {
    static ROLE_A: Cell<bool> = const { Cell::new(false) };
    static STEP_REGION: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub fn set_role_a(v: bool) { ROLE_A.with(|c| c.set(v)) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Write, Read, Rename, Unlink, Trunc, Create, Alloc, Store, Sync }

const MAXR: usize = 4096;
static REG_ADDR: [AtomicUsize; MAXR] = [const { AtomicUsize::new(0) }; MAXR];
static REG_LEN: [AtomicUsize; MAXR] = [const { AtomicUsize::new(0) }; MAXR];
const MAXFD: usize = 65536;
pub static FD_COMPACT: [AtomicBool; MAXFD] = [const { AtomicBool::new(false) }; MAXFD];

/// returns true if the caller should crash now (only for pwrite, which may tear)
fn ev(kind: Kind) -> bool {
    if !ARMED.load(SeqCst) { return false; }
    if ROLE_A.with(|c| c.get()) {
        let n = A_EVENTS.fetch_add(1, SeqCst);
        if n == PAUSE_AT.load(SeqCst) {
            PAUSED.store(true, SeqCst);
            while !RESUME.load(SeqCst) { unsafe { libc::usleep(50); } }
        }
    }
    let seed = RND_DELAY.load(SeqCst);
    if seed != 0 {
        let mut x = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x ^= x >> 29;
        RND_DELAY.store(x | 1, SeqCst);
        if x % 5 == 0 { unsafe { libc::usleep((x >> 32) as u32 % 300); } }
    }
    if kind == Kind::Read || kind == Kind::Sync { return false; }
    let n = EVENTS.fetch_add(1, SeqCst);
    if n == CRASH_AT.load(SeqCst) {
        if kind == Kind::Write && TORN.load(SeqCst) { return true; }
        unsafe { libc::_exit(CRASH_CODE) }
    }
    false
}

pub fn reset() {
    ARMED.store(false, SeqCst);
    CRASH_AT.store(-1, SeqCst);
    EVENTS.store(0, SeqCst);
    PAUSE_AT.store(-1, SeqCst);
    PAUSED.store(false, SeqCst);
    RESUME.store(false, SeqCst);
    A_EVENTS.store(0, SeqCst);
}

pub fn arm(trap_stores: bool) {
    ARMED.store(true, SeqCst);
    TRAP.store(trap_stores, SeqCst);
    if trap_stores { protect_all(libc::PROT_READ) }
}
pub fn disarm() {
    ARMED.store(false, SeqCst);
    TRAP.store(false, SeqCst);
    protect_all(libc::PROT_READ | libc::PROT_WRITE)
}
static TRAP: AtomicBool = AtomicBool::new(false);

fn protect_all(prot: i32) {
    for i in 0..MAXR {
        let a = REG_ADDR[i].load(SeqCst);
        if a != 0 { unsafe { libc::syscall(libc::SYS_mprotect, a, REG_LEN[i].load(SeqCst), prot); } }
    }
}

pub fn install_handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        sa.sa_sigaction = on_segv as *const () as usize;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_trap as *const () as usize;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

extern "C" fn on_segv(_s: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        for i in 0..MAXR {
            let a = REG_ADDR[i].load(SeqCst);
            if a != 0 && addr >= a && addr < a + REG_LEN[i].load(SeqCst) {
                ev(Kind::Store);
                STEP_REGION.with(|c| c.set(i));
                libc::syscall(libc::SYS_mprotect, a, REG_LEN[i].load(SeqCst), libc::PROT_READ | libc::PROT_WRITE);
                let uc = uc as *mut libc::ucontext_t;
                (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
                return;
            }
        }
        let msg = b"harness: segmentation fault\n";
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::_exit(139);
    }
}
extern "C" fn on_trap(_s: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = uc as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        let i = STEP_REGION.with(|c| c.replace(usize::MAX));
        if i < MAXR && TRAP.load(SeqCst) {
            let a = REG_ADDR[i].load(SeqCst);
            if a != 0 { libc::syscall(libc::SYS_mprotect, a, REG_LEN[i].load(SeqCst), libc::PROT_READ); }
        }
    }
}

fn compact_wait(fd: i32) {
    if (fd as usize) < MAXFD && FD_COMPACT[fd as usize].load(SeqCst) {
        let n = COMPACT_WRITES.fetch_add(1, SeqCst);
        let d = COMPACT_DELAY_US.load(SeqCst);
        if d > 0 { unsafe { libc::usleep(d as u32); } }
        if n >= COMPACT_GATE_AFTER.load(SeqCst) {
            while COMPACT_GATE.load(SeqCst) { unsafe { libc::usleep(50); } }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    compact_wait(fd);
    if ev(Kind::Write) {
        libc::syscall(libc::SYS_pwrite64, fd, buf, n / 2, off);
        libc::_exit(CRASH_CODE);
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, n: usize, off: i64) -> isize {
    ev(Kind::Read);
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    ev(Kind::Rename);
    libc::syscall(libc::SYS_rename, a, b) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    ev(Kind::Unlink);
    libc::syscall(libc::SYS_unlink, a) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    ev(Kind::Trunc);
    libc::syscall(libc::SYS_ftruncate, fd, len) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: i32, off: i64, len: i64) -> i32 {
    ev(Kind::Alloc);
    if libc::syscall(libc::SYS_fallocate, fd, 0, off, len) < 0 { *libc::__errno_location() } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { ev(Kind::Create); }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
    if fd >= 0 && (fd as usize) < MAXFD {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        let base = p.rsplit(|c| *c == b'/').next().unwrap_or(p);
        FD_COMPACT[fd as usize].store(base.starts_with(b"compact_"), SeqCst);
    }
    fd
}
pub static SYNCED_INO: [AtomicU64; 256] = [const { AtomicU64::new(0) }; 256];
pub static NSYNC: AtomicUsize = AtomicUsize::new(0);
unsafe fn do_sync(fd: i32, call: libc::c_long) -> i32 {
    ev(Kind::Sync);
    if FAIL_SYNC.load(SeqCst) { *libc::__errno_location() = libc::EIO; return -1; }
    let mut st: libc::stat = std::mem::zeroed();
    libc::fstat(fd, &mut st);
    let n = NSYNC.fetch_add(1, SeqCst);
    if n < 256 { SYNCED_INO[n].store(st.st_ino, SeqCst); }
    let _ = call;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { do_sync(fd, libc::SYS_fdatasync) }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 { do_sync(fd, libc::SYS_fsync) }
// msync(MS_SYNC) of a mapped shard header counts too; only the fd-based calls carry an inode here
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let p = libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut libc::c_void;
    if fd >= 0 && flags & libc::MAP_SHARED != 0 && prot & libc::PROT_WRITE != 0 && p as isize != -1 {
        for i in 0..MAXR {
            if REG_ADDR[i].load(SeqCst) == 0 {
                REG_LEN[i].store(len, SeqCst);
                REG_ADDR[i].store(p as usize, SeqCst);
                break;
            }
        }
        if TRAP.load(SeqCst) { libc::syscall(libc::SYS_mprotect, p, len, libc::PROT_READ); }
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut libc::c_void, len: usize) -> i32 {
    for i in 0..MAXR {
        if REG_ADDR[i].load(SeqCst) == addr as usize { REG_ADDR[i].store(0, SeqCst); break; }
    }
    libc::syscall(libc::SYS_munmap, addr, len) as i32
}
