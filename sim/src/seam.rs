//! The seams: every way the library can meet the outside world, taken over by the simulator.
//!
//! The library is linked, unmodified, into this binary.  The C symbols that Rust's standard library (and
//! the crates under it) use to reach the operating system are defined here, so that on a simulated thread
//! the file system under `/dxfsim/`, the wall clock, the random number source and blocking on a lock are
//! all decided by the simulator.  On any other thread, and for any other path, the calls go straight
//! to the kernel.
#![allow(clippy::missing_safety_doc)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::choice::{fnv, Rng, FNV0};
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, off64_t, size_t, ssize_t};

pub const PREFIX: &str = "/dxfsim/";

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    /// A random source of this thread's own (0: the world's), so that threads do not influence each other through it.
    static PRIVATE_RNG: Cell<u64> = const { Cell::new(0) };
}

/// While alive, the current thread runs simulator code: no faults, no preemption, no accounting.
pub struct Quiet;
impl Quiet {
    pub fn new() -> Quiet {
        let _ = QUIET.try_with(|q| q.set(q.get() + 1));
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        let _ = QUIET.try_with(|q| q.set(q.get() - 1));
    }
}
/// Marks the current thread as simulated.
pub fn enter_sim() {
    SIM.with(|s| s.set(true));
}
pub fn leave_sim() {
    SIM.with(|s| s.set(false));
}
pub fn active() -> bool {
    SIM.try_with(|s| s.get()).unwrap_or(false) && QUIET.try_with(|q| q.get() == 0).unwrap_or(false)
}
/// From now on this thread draws its random numbers from a source of its own.
pub fn private_random(seed: u64) {
    PRIVATE_RNG.with(|p| p.set(Rng::new(seed).next() | 1));
}
/// Draws random numbers from another source while `f` runs.
pub fn with_private_random<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let old = PRIVATE_RNG.with(|p| p.replace(Rng::new(seed).next() | 1));
    let r = f();
    PRIVATE_RNG.with(|p| p.set(old));
    r
}
fn simulated() -> bool {
    SIM.try_with(|s| s.get()).unwrap_or(false)
}

// ---------------------------------------------------------------------------------------------------
// fault accounting

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(usize)]
pub enum Fault {
    ReadShort,
    ReadInterrupted,
    ReadError,
    ReadStall,
    ReadEarlyEof,
    WriteShort,
    WriteInterrupted,
    WriteError,
    WriteZero,
    DiskOpenError,
    DiskShort,
    DiskInterrupted,
    DiskError,
    DiskFull,
    CrashSnapshot,
    TornWrite,
    StoredBitFlip,
    StoredByteSet,
    StoredRangeLost,
    StoredRangeDup,
    StoredRangeZeroed,
    StoredRangeSwapped,
    StoredTruncated,
    StoredRecordLost,
    StoredRecordDup,
    StoredRecordSwapped,
    StoredValueReplaced,
    StoredRelaid,
    ClockJump,
    ZoneChange,
    HashSeedChange,
    ContextSwitch,
    AllocPreemption,
    NestedCall,
    LockBlocked,
    Restart,
    AllocBudgetLow,
    RetryAfterFault,
    COUNT,
}
pub const NFAULT: usize = Fault::COUNT as usize;
pub static FAULTS: [AtomicU64; NFAULT] = [const { AtomicU64::new(0) }; NFAULT];
pub fn fault(f: Fault) {
    FAULTS[f as usize].fetch_add(1, Relaxed);
    event(b'F', f as u64, 0);
}
pub fn fault_name(i: usize) -> String {
    let f: Fault = unsafe { std::mem::transmute(i) };
    format!("{:?}", f)
}

// ---------------------------------------------------------------------------------------------------
// the world

pub struct OpenFile {
    inode: usize,
    pos: usize,
    append: bool,
    write: bool,
    read: bool,
}
#[derive(Clone, Default)]
pub struct DiskPlan {
    /// Total bytes the disk can hold; writes beyond are cut short and then fail with ENOSPC.
    pub capacity: Option<usize>,
    /// The nth (0-based) data operation fails with this errno (and every later one as well if `sticky`).
    pub fail_at: Option<(u64, i32, bool)>,
    /// Which operations `fail_at` counts: 0 any, 1 writes, 2 reads, 3 opens.
    pub fail_kind: u8,
    /// Largest transfer per call (0: unlimited).
    pub max_chunk: usize,
    /// Per-call chance (in 1/256) of a random short transfer, and of EINTR.
    pub p_short: u64,
    pub p_intr: u64,
    pub seed: u64,
    /// Take a copy of the disk right after (a torn part of) the nth mutating operation.
    pub crash_at: Option<u64>,
    /// Of that operation's write, this fraction (in 1/256) reached the file.
    pub torn: u64,
}
#[derive(Default)]
pub struct Disk {
    pub files: BTreeMap<String, usize>,
    inodes: Vec<Vec<u8>>,
    fds: BTreeMap<c_int, OpenFile>,
    pub plan: DiskPlan,
    pub ops: u64,
    counted: u64,
    pub mutations: u64,
    pub snapshot: Option<BTreeMap<String, Vec<u8>>>,
    pub hard_errors: u64,
    pub opened: u64,
    rng: u64,
}
impl Disk {
    pub fn reset(&mut self) {
        *self = Disk::default();
    }
    pub fn set_plan(&mut self, p: DiskPlan) {
        self.rng = p.seed;
        self.plan = p;
        self.ops = 0;
        self.counted = 0;
        self.mutations = 0;
        self.hard_errors = 0;
        self.snapshot = None;
    }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        self.inodes.push(data);
        self.files.insert(path.to_string(), self.inodes.len() - 1);
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.files.get(path).map(|&i| self.inodes[i].clone())
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    fn used(&self) -> usize {
        self.files.values().map(|&i| self.inodes[i].len()).sum()
    }
    fn contents(&self) -> BTreeMap<String, Vec<u8>> {
        self.files.iter().map(|(k, &i)| (k.clone(), self.inodes[i].clone())).collect()
    }
    fn rnd(&mut self, n: u64) -> u64 {
        let mut r = Rng(self.rng);
        let v = r.below(n);
        self.rng = r.0;
        v
    }
    /// Decides whether this operation meets a hard failure.
    fn gate(&mut self, kind: u8) -> Option<i32> {
        self.ops += 1;
        let counts = self.plan.fail_kind == 0 || self.plan.fail_kind == kind;
        if counts {
            let k = self.counted;
            self.counted += 1;
            if let Some((n, e, sticky)) = self.plan.fail_at {
                if k == n || (sticky && k > n) {
                    self.hard_errors += 1;
                    fault(if kind == 3 { Fault::DiskOpenError } else { Fault::DiskError });
                    return Some(e);
                }
            }
        }
        None
    }
    fn mutated(&mut self) {
        if self.plan.crash_at == Some(self.mutations) && self.snapshot.is_none() {
            fault(Fault::CrashSnapshot);
            self.snapshot = Some(self.contents());
        }
        self.mutations += 1;
    }
    fn chunk(&mut self, len: usize) -> Result<usize, i32> {
        if len == 0 {
            return Ok(0);
        }
        let (pi, ps, mx) = (self.plan.p_intr, self.plan.p_short, self.plan.max_chunk);
        if pi > 0 && self.rnd(256) < pi {
            fault(Fault::DiskInterrupted);
            return Err(libc::EINTR);
        }
        let mut n = len;
        if mx > 0 && n > mx {
            n = mx;
        }
        if ps > 0 && n > 1 && self.rnd(256) < ps {
            n = 1 + self.rnd(n as u64) as usize;
        }
        if n < len {
            fault(Fault::DiskShort);
        }
        Ok(n)
    }
    fn do_write(&mut self, fd: c_int, data: &[u8], at: Option<usize>) -> Result<usize, i32> {
        if !self.fds[&fd].write {
            return Err(libc::EBADF);
        }
        if let Some(e) = self.gate(1) {
            return Err(e);
        }
        let mut n = self.chunk(data.len())?;
        if let Some(cap) = self.plan.capacity {
            let room = cap.saturating_sub(self.used());
            let f = &self.fds[&fd];
            let end = self.inodes[f.inode].len();
            let pos = at.unwrap_or(if f.append { end } else { f.pos });
            let room = room + end.saturating_sub(pos);
            if n > room {
                fault(Fault::DiskFull);
                if room == 0 {
                    self.hard_errors += 1;
                    return Err(libc::ENOSPC);
                }
                n = room;
            }
        }
        let f = self.fds.get_mut(&fd).unwrap();
        let ino = &mut self.inodes[f.inode];
        let pos = match at {
            Some(p) => p,
            None if f.append => ino.len(),
            None => f.pos,
        };
        // the torn-write crash point: only part of this write reached the file
        if self.plan.crash_at == Some(self.mutations) && self.plan.torn < 256 {
            let part = n * self.plan.torn as usize / 256;
            if ino.len() < pos + part {
                ino.resize(pos + part, 0);
            }
            ino[pos..pos + part].copy_from_slice(&data[..part]);
            fault(Fault::TornWrite);
            fault(Fault::CrashSnapshot);
            self.snapshot = Some(self.contents());
        }
        let f = self.fds.get_mut(&fd).unwrap();
        let ino = &mut self.inodes[f.inode];
        if ino.len() < pos + n {
            ino.resize(pos + n, 0);
        }
        ino[pos..pos + n].copy_from_slice(&data[..n]);
        if at.is_none() {
            f.pos = pos + n;
        }
        self.mutated();
        Ok(n)
    }
    fn do_read(&mut self, fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        if !self.fds[&fd].read {
            return Err(libc::EBADF);
        }
        if let Some(e) = self.gate(2) {
            return Err(e);
        }
        let f = &self.fds[&fd];
        let pos = at.unwrap_or(f.pos);
        let avail = self.inodes[f.inode].len().saturating_sub(pos).min(buf.len());
        let n = if avail == 0 { 0 } else { self.chunk(avail)? };
        let f = self.fds.get_mut(&fd).unwrap();
        buf[..n].copy_from_slice(&self.inodes[f.inode][pos..pos + n]);
        if at.is_none() {
            f.pos = pos + n;
        }
        Ok(n)
    }
}

pub struct World {
    pub disk: Disk,
    /// Nanoseconds since the Unix epoch, as the library sees them.
    pub now_ns: i128,
    /// How far the clock advances with every reading.
    pub tick_ns: i128,
    pub clock_reads: u64,
    pub simulated_ns: i128,
    pub rng: Rng,
    pub hash: u64,
    pub events: u64,
}
struct W(UnsafeCell<Option<World>>);
unsafe impl Sync for W {}
static WORLD: W = W(UnsafeCell::new(None));
pub fn world() -> &'static mut World {
    unsafe {
        (*WORLD.0.get()).get_or_insert_with(|| World {
            disk: Disk::default(),
            now_ns: 0,
            tick_ns: 0,
            clock_reads: 0,
            simulated_ns: 0,
            rng: Rng::new(0),
            hash: FNV0,
            events: 0,
        })
    }
}
pub const BASE_NS: i128 = 1_700_000_000_000_000_000;
/// Starts a run: a fresh disk, the clock at a fixed instant, the random source seeded.
pub fn reset_world(seed: u64) {
    let w = world();
    w.disk.reset();
    w.now_ns = BASE_NS;
    w.tick_ns = 1_000_000;
    w.rng = Rng::new(seed);
    w.hash = FNV0;
    w.events = 0;
}
/// Folds one event into the run's log digest.
pub fn event(kind: u8, a: u64, b: u64) {
    let w = world();
    let mut x = [0u8; 17];
    x[0] = kind;
    x[1..9].copy_from_slice(&a.to_le_bytes());
    x[9..17].copy_from_slice(&b.to_le_bytes());
    w.hash = fnv(w.hash, &x);
    w.events += 1;
}

// ---------------------------------------------------------------------------------------------------
// the allocator: accounting, a budget, and preemption points

pub static ALLOC_CALLS: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_LIVE: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_PEAK: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static ALLOC_CALL_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_ALLOC_CALLS: i32 = 78;

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if active() {
            let c = ALLOC_CALLS.fetch_add(1, Relaxed);
            if c > ALLOC_CALL_LIMIT.load(Relaxed) {
                raw(libc::SYS_exit_group, EXIT_ALLOC_CALLS as i64, 0, 0, 0, 0, 0);
            }
            ALLOC_BYTES.fetch_add(l.size() as u64, Relaxed);
            let live = ALLOC_LIVE.fetch_add(l.size() as u64, Relaxed).wrapping_add(l.size() as u64);
            if live < (1 << 62) {
                if live > ALLOC_PEAK.load(Relaxed) {
                    ALLOC_PEAK.store(live, Relaxed);
                }
                if live > ALLOC_LIMIT.load(Relaxed) {
                    raw(libc::SYS_exit_group, EXIT_ALLOC as i64, 0, 0, 0, 0, 0);
                }
            }
            crate::sched::alloc_point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if active() {
            ALLOC_LIVE.fetch_sub(l.size() as u64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if active() {
            let c = ALLOC_CALLS.fetch_add(1, Relaxed);
            if c > ALLOC_CALL_LIMIT.load(Relaxed) {
                raw(libc::SYS_exit_group, EXIT_ALLOC_CALLS as i64, 0, 0, 0, 0, 0);
            }
            ALLOC_BYTES.fetch_add(n as u64, Relaxed);
            let d = (n as u64).wrapping_sub(l.size() as u64);
            let live = ALLOC_LIVE.fetch_add(d, Relaxed).wrapping_add(d);
            if live < (1 << 62) {
                if live > ALLOC_PEAK.load(Relaxed) {
                    ALLOC_PEAK.store(live, Relaxed);
                }
                if live > ALLOC_LIMIT.load(Relaxed) {
                    raw(libc::SYS_exit_group, EXIT_ALLOC as i64, 0, 0, 0, 0, 0);
                }
            }
        }
        System.realloc(p, l, n)
    }
}
pub fn alloc_reset(limit_bytes: u64, limit_calls: u64) {
    ALLOC_CALLS.store(0, Relaxed);
    ALLOC_BYTES.store(0, Relaxed);
    ALLOC_LIVE.store(0, Relaxed);
    ALLOC_PEAK.store(0, Relaxed);
    ALLOC_LIMIT.store(limit_bytes, Relaxed);
    ALLOC_CALL_LIMIT.store(limit_calls, Relaxed);
}

// ---------------------------------------------------------------------------------------------------
// raw system calls

#[cfg(target_arch = "x86_64")]
pub unsafe fn raw(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
unsafe fn finish(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !simulated() || p.is_null() {
        return None;
    }
    let _q = Quiet::new();
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s.starts_with(PREFIX) {
        Some(s.to_string())
    } else {
        None
    }
}
unsafe fn sim_fd(fd: c_int) -> bool {
    simulated() && world().disk.fds.contains_key(&fd)
}

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(p) = sim_path(path) {
        let _q = Quiet::new();
        let d = &mut world().disk;
        event(b'o', flags as u64, 0);
        if let Some(e) = d.gate(3) {
            return fail(e) as c_int;
        }
        if d.plan.p_intr > 0 && d.rnd(256) < d.plan.p_intr {
            fault(Fault::DiskInterrupted);
            return fail(libc::EINTR) as c_int;
        }
        let acc = flags & libc::O_ACCMODE;
        let ino = match d.files.get(&p).copied() {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return fail(libc::EEXIST) as c_int;
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return fail(libc::ENOENT) as c_int;
                }
                d.inodes.push(vec![]);
                let i = d.inodes.len() - 1;
                d.files.insert(p, i);
                d.mutated();
                i
            }
        };
        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
            d.inodes[ino].clear();
            d.mutated();
        }
        let fd = raw(
            libc::SYS_openat,
            libc::AT_FDCWD as i64,
            c"/dev/null".as_ptr() as i64,
            (libc::O_RDWR | libc::O_CLOEXEC) as i64,
            0,
            0,
            0,
        );
        if fd < 0 {
            return finish(fd) as c_int;
        }
        d.opened += 1;
        d.fds.insert(
            fd as c_int,
            OpenFile {
                inode: ino,
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                write: acc != libc::O_RDONLY,
                read: acc != libc::O_WRONLY,
            },
        );
        return fd as c_int;
    }
    finish(raw(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if sim_path(path).is_some() {
        return open_impl(path, flags, mode);
    }
    finish(raw(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}
fn conv(r: Result<usize, i32>) -> ssize_t {
    unsafe {
        match r {
            Ok(n) => n as ssize_t,
            Err(e) => fail(e) as ssize_t,
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        let _q = Quiet::new();
        let r = world().disk.do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None);
        event(b'w', n as u64, r.unwrap_or(usize::MAX) as u64);
        return conv(r);
    }
    finish(raw(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        let _q = Quiet::new();
        let r = world()
            .disk
            .do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as usize));
        return conv(r);
    }
    finish(raw(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if sim_fd(fd) {
        let _q = Quiet::new();
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        let r = world().disk.do_write(fd, &all, None);
        event(b'w', all.len() as u64, r.unwrap_or(usize::MAX) as u64);
        return conv(r);
    }
    finish(raw(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        let _q = Quiet::new();
        let r = world()
            .disk
            .do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None);
        event(b'r', n as u64, r.unwrap_or(usize::MAX) as u64);
        return conv(r);
    }
    finish(raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        let _q = Quiet::new();
        let r = world()
            .disk
            .do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as usize));
        return conv(r);
    }
    finish(raw(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if sim_fd(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    finish(raw(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_fd(fd) {
        let _q = Quiet::new();
        event(b'c', 0, 0);
        world().disk.fds.remove(&fd);
    }
    finish(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if sim_fd(fd) {
        let d = &mut world().disk;
        let f = d.fds.get_mut(&fd).unwrap();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            _ => d.inodes[f.inode].len() as i64,
        };
        let np = base + off;
        if np < 0 {
            return fail(libc::EINVAL);
        }
        f.pos = np as usize;
        return np;
    }
    finish(raw(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
unsafe fn fill_stat(st: *mut libc::stat64, size: usize, ino: usize) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = libc::S_IFREG | 0o644;
    (*st).st_size = size as i64;
    (*st).st_ino = ino as u64 + 1000;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if sim_fd(fd) {
        let d = &world().disk;
        let ino = d.fds[&fd].inode;
        fill_stat(st, d.inodes[ino].len(), ino);
        return 0;
    }
    finish(raw(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn stat_path(p: &str, st: *mut libc::stat64) -> c_int {
    let d = &world().disk;
    match d.files.get(p) {
        Some(&i) => {
            fill_stat(st, d.inodes[i].len(), i);
            0
        }
        None if p.ends_with('/') || p == "/dxfsim" => {
            fill_stat(st, 0, 0);
            (*st).st_mode = libc::S_IFDIR | 0o755;
            0
        }
        None => fail(libc::ENOENT) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(p) = sim_path(path) {
        return stat_path(&p, st);
    }
    finish(raw(libc::SYS_stat, path as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(p) = sim_path(path) {
        return stat_path(&p, st);
    }
    finish(raw(libc::SYS_lstat, path as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    let mut st: libc::stat64 = std::mem::zeroed();
    let hit = if flags & libc::AT_EMPTY_PATH != 0 && sim_fd(dir) {
        fstat64(dir, &mut st);
        true
    } else if let Some(p) = sim_path(path) {
        if stat_path(&p, &mut st) != 0 {
            return -1;
        }
        true
    } else {
        false
    };
    if hit {
        std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*buf).stx_mask = libc::STATX_BASIC_STATS;
        (*buf).stx_mode = st.st_mode as u16;
        (*buf).stx_size = st.st_size as u64;
        (*buf).stx_ino = st.st_ino;
        (*buf).stx_nlink = 1;
        (*buf).stx_blksize = 4096;
        return 0;
    }
    finish(raw(libc::SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(p) = sim_path(path) {
        return if world().disk.files.contains_key(&p) { 0 } else { fail(libc::ENOENT) as c_int };
    }
    finish(raw(libc::SYS_access, path as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn sync_impl(fd: c_int, nr: c_long) -> c_int {
    if sim_fd(fd) {
        let _q = Quiet::new();
        event(b's', 0, 0);
        let d = &mut world().disk;
        return match d.gate(1) {
            Some(e) => fail(e) as c_int,
            None => 0,
        };
    }
    finish(raw(nr, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sim_fd(fd) {
        let _q = Quiet::new();
        event(b't', len as u64, 0);
        let d = &mut world().disk;
        if let Some(e) = d.gate(1) {
            return fail(e) as c_int;
        }
        let ino = d.fds[&fd].inode;
        d.inodes[ino].resize(len as usize, 0);
        d.mutated();
        return 0;
    }
    finish(raw(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if let (Some(a), Some(b)) = (sim_path(from), sim_path(to)) {
        let _q = Quiet::new();
        event(b'm', 0, 0);
        let d = &mut world().disk;
        if let Some(e) = d.gate(1) {
            return fail(e) as c_int;
        }
        return match d.files.remove(&a) {
            Some(i) => {
                d.files.insert(b, i);
                d.mutated();
                0
            }
            None => fail(libc::ENOENT) as c_int,
        };
    }
    finish(raw(libc::SYS_rename, from as i64, to as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(p) = sim_path(path) {
        let _q = Quiet::new();
        event(b'u', 0, 0);
        let d = &mut world().disk;
        if let Some(e) = d.gate(1) {
            return fail(e) as c_int;
        }
        return match d.files.remove(&p) {
            Some(_) => {
                d.mutated();
                0
            }
            None => fail(libc::ENOENT) as c_int,
        };
    }
    finish(raw(libc::SYS_unlink, path as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    if sim_path(path).is_some() {
        return fail(libc::EEXIST) as c_int;
    }
    finish(raw(libc::SYS_mkdir, path as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    if sim_path(path).is_some() {
        return 0;
    }
    finish(raw(libc::SYS_chmod, path as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    finish(raw(libc::SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    finish(raw(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if active() && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        let w = world();
        w.now_ns += w.tick_ns;
        w.clock_reads += 1;
        w.simulated_ns += w.tick_ns.abs();
        (*ts).tv_sec = w.now_ns.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = w.now_ns.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    finish(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        let mut own = PRIVATE_RNG.try_with(|p| p.get()).unwrap_or(0);
        if own != 0 {
            let mut r = Rng(own);
            for x in b.iter_mut() {
                *x = r.next() as u8;
            }
            own = r.0 | 1;
            let _ = PRIVATE_RNG.try_with(|p| p.set(own));
            return n as ssize_t;
        }
        let r = &mut world().rng;
        for x in b.iter_mut() {
            *x = r.next() as u8;
        }
        return n as ssize_t;
    }
    finish(raw(libc::SYS_getrandom, buf as i64, n as i64, flags as i64, 0, 0, 0)) as ssize_t
}
/// Locks that block: a simulated thread that would wait on a futex hands the baton on instead.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == libc::SYS_getrandom && active() {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    if n == libc::SYS_futex && active() {
        let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && crate::sched::futex_block() {
            return fail(libc::EAGAIN);
        }
    }
    finish(raw(n, a, b, c, d, e, f))
}
