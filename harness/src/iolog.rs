//! Interposed file-writing calls: SQLite's writes, truncations, syncs and unlinks below a watched
//! directory are recorded in order (for the offline crash checker) and can be made to fail.

use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Ev {
    Write(String, u64, Vec<u8>),
    Trunc(String, u64),
    Sync(String),
    Unlink(String),
    /// The operation with this number was acknowledged to its caller.
    Mark(usize),
}

static ON: AtomicBool = AtomicBool::new(false);
static FAULT_IN: AtomicI64 = AtomicI64::new(-1);
static FAULT_STICKY: AtomicBool = AtomicBool::new(false);
static FAULT_ERRNO: AtomicI64 = AtomicI64::new(0);
static FAULTS_HIT: AtomicI64 = AtomicI64::new(0);

struct Log {
    prefix: PathBuf,
    events: Vec<Ev>,
}

lazy_static::lazy_static! {
    static ref LOG: Mutex<Log> = Mutex::new(Log { prefix: PathBuf::new(), events: vec![] });
}

pub fn start(prefix: &Path) {
    let mut l = LOG.lock().unwrap();
    l.prefix = prefix.to_path_buf();
    l.events.clear();
    drop(l);
    clear_fault();
    ON.store(true, Ordering::SeqCst);
}

pub fn stop() -> Vec<Ev> {
    ON.store(false, Ordering::SeqCst);
    std::mem::take(&mut LOG.lock().unwrap().events)
}

pub fn mark(k: usize) {
    LOG.lock().unwrap().events.push(Ev::Mark(k));
}

pub fn count() -> usize {
    LOG.lock().unwrap().events.len()
}

/// The n-th recorded call from now on fails (and, if sticky, all after it).
pub fn fault(n: i64, errno: i32, sticky: bool) {
    FAULTS_HIT.store(0, Ordering::SeqCst);
    FAULT_ERRNO.store(errno as i64, Ordering::SeqCst);
    FAULT_STICKY.store(sticky, Ordering::SeqCst);
    FAULT_IN.store(n, Ordering::SeqCst);
}

pub fn clear_fault() -> i64 {
    FAULT_IN.store(-1, Ordering::SeqCst);
    FAULT_STICKY.store(false, Ordering::SeqCst);
    FAULTS_HIT.swap(0, Ordering::SeqCst)
}

fn watched_fd(fd: c_int) -> Option<String> {
    let mut buf = [0u8; 512];
    let link = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { libc::readlink(link.as_ptr() as *const c_char, buf.as_mut_ptr() as *mut c_char, buf.len()) };
    if n <= 0 {
        return None;
    }
    let p = std::str::from_utf8(&buf[..n as usize]).ok()?;
    watched(p)
}

fn watched(p: &str) -> Option<String> {
    let l = LOG.lock().unwrap();
    let pre = l.prefix.to_str()?;
    let rest = p.strip_prefix(pre)?.strip_prefix('/')?;
    Some(rest.to_string())
}

fn record(e: Ev) {
    LOG.lock().unwrap().events.push(e);
}

/// Whether this call is to fail; sets errno.
fn failing() -> bool {
    let n = FAULT_IN.load(Ordering::SeqCst);
    if n < 0 {
        return false;
    }
    if n > 0 {
        FAULT_IN.store(n - 1, Ordering::SeqCst);
        return false;
    }
    if !FAULT_STICKY.load(Ordering::SeqCst) {
        FAULT_IN.store(-1, Ordering::SeqCst);
    }
    FAULTS_HIT.fetch_add(1, Ordering::SeqCst);
    unsafe { *libc::__errno_location() = FAULT_ERRNO.load(Ordering::SeqCst) as c_int };
    true
}

unsafe fn sys_pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let name = if ON.load(Ordering::SeqCst) { watched_fd(fd) } else { None };
    if let Some(name) = name {
        if failing() {
            return -1;
        }
        let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize;
        if r > 0 {
            record(Ev::Write(name, off as u64, std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec()));
        }
        return r;
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}

unsafe fn sys_truncate(fd: c_int, len: i64) -> c_int {
    let name = if ON.load(Ordering::SeqCst) { watched_fd(fd) } else { None };
    if let Some(name) = name {
        if failing() {
            return -1;
        }
        let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
        if r == 0 {
            record(Ev::Trunc(name, len as u64));
        }
        return r;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}

unsafe fn sys_sync(call: i64, fd: c_int) -> c_int {
    let name = if ON.load(Ordering::SeqCst) { watched_fd(fd) } else { None };
    if let Some(name) = name {
        if failing() {
            return -1;
        }
        let r = libc::syscall(call, fd) as c_int;
        if r == 0 {
            record(Ev::Sync(name));
        }
        return r;
    }
    libc::syscall(call, fd) as c_int
}

#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    sys_pwrite(fd, buf, n, off)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    sys_pwrite(fd, buf, n, off)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if ON.load(Ordering::SeqCst) && watched_fd(fd).is_some() {
        let off = libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR);
        let r = sys_pwrite(fd, buf, n, off);
        if r > 0 {
            libc::syscall(libc::SYS_lseek, fd, off + r as i64, libc::SEEK_SET);
        }
        return r;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    sys_truncate(fd, len)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    sys_truncate(fd, len)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sys_sync(libc::SYS_fsync, fd)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sys_sync(libc::SYS_fdatasync, fd)
}
#[cfg(not(svm_asan))]
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let name = if ON.load(Ordering::SeqCst) { CStr::from_ptr(path).to_str().ok().and_then(watched) } else { None };
    let r = libc::syscall(libc::SYS_unlink, path) as c_int;
    if let (Some(name), 0) = (name, r) {
        record(Ev::Unlink(name));
    }
    r
}

// ---------------------------------------------------------------------------------------------

/// How a crash treats what was written but not synced.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    /// The process dies; the kernel keeps everything written.
    Kill,
    /// The machine dies: all unsynced changes are lost.
    All,
    /// ... some suffix of the unsynced changes of each file is lost.
    Suffix,
    /// ... any of them is lost, and writes may be torn at 512-byte sectors.
    Any,
}

pub type Files = BTreeMap<String, Vec<u8>>;

fn apply(f: &mut Files, e: &Ev) {
    match e {
        Ev::Write(n, off, data) => {
            let v = f.entry(n.clone()).or_default();
            let end = *off as usize + data.len();
            if v.len() < end {
                v.resize(end, 0);
            }
            v[*off as usize..end].copy_from_slice(data);
        }
        Ev::Trunc(n, len) => f.entry(n.clone()).or_default().resize(*len as usize, 0),
        Ev::Unlink(n) => {
            f.remove(n);
        }
        Ev::Sync(_) | Ev::Mark(_) => {}
    }
}

fn file_of(e: &Ev) -> Option<&str> {
    match e {
        Ev::Write(n, ..) | Ev::Trunc(n, _) | Ev::Sync(n) | Ev::Unlink(n) => Some(n),
        Ev::Mark(_) => None,
    }
}

/// The files as a crash right after `events[..cut]` leaves them, the last write possibly torn.
pub fn image(events: &[Ev], cut: usize, loss: Loss, torn: bool, r: &mut crate::core::Rng) -> Files {
    let done = &events[..cut];
    let mut kept = vec![true; cut];
    if loss != Loss::Kill {
        let mut names: Vec<&str> = done.iter().filter_map(file_of).collect();
        names.sort();
        names.dedup();
        for n in names {
            let last_sync = done
                .iter()
                .rposition(|e| matches!(e, Ev::Sync(m) | Ev::Unlink(m) if m == n))
                .map(|i| i + 1)
                .unwrap_or(0);
            let open: Vec<usize> = (last_sync..cut)
                .filter(|&i| file_of(&done[i]) == Some(n) && !matches!(done[i], Ev::Sync(_)))
                .collect();
            match loss {
                Loss::All => open.iter().for_each(|&i| kept[i] = false),
                Loss::Suffix => {
                    let k = r.below(open.len() + 1);
                    open[k..].iter().for_each(|&i| kept[i] = false)
                }
                _ => open.iter().for_each(|&i| kept[i] = r.bool()),
            }
        }
    }
    let mut f = Files::new();
    for i in 0..cut {
        if !kept[i] {
            continue;
        }
        if torn && i + 1 == cut {
            if let Ev::Write(n, off, data) = &done[i] {
                let sectors = data.len() / 512;
                let k = if sectors > 0 && r.bool() { 512 * r.below(sectors + 1) } else { r.below(data.len() + 1) };
                apply(&mut f, &Ev::Write(n.clone(), *off, data[..k].to_vec()));
                continue;
            }
        }
        apply(&mut f, &done[i]);
    }
    f
}

pub fn tail(n: usize) -> Vec<String> {
    let l = LOG.lock().unwrap();
    l.events[l.events.len().saturating_sub(n)..]
        .iter()
        .map(|e| match e {
            Ev::Write(f, o, d) => format!("write {f} {o}+{}", d.len()),
            e => format!("{e:?}"),
        })
        .collect()
}
