//! The process's own write, fsync, fdatasync and pread: they record and, when a
//! case asks for it, fail. Only files under the scratch directory are affected.
#![allow(dead_code)]
use std::sync::Mutex;

#[derive(Default, Clone)]
pub struct Plan {
    /// path prefix of the files concerned; empty: none
    pub dir: String,
    /// fail the k-th write (0-based) to a file whose name ends with this
    pub fail_write: Option<(String, usize)>,
    /// at most this many bytes per write
    pub short_write: Option<usize>,
    /// only that write fails, not those that follow
    pub once: bool,
    /// 0: ENOSPC for writes, EIO for fsync
    pub errno: i32,
    /// at most this many bytes per pread
    pub short_read: Option<usize>,
    /// fail preads that touch this offset
    pub fail_read_at: Option<u64>,
    /// delay preads at this offset, in ms
    pub slow_read_at: Option<(u64, u64)>,
    /// fail fsync of a file whose name ends with this
    pub fail_sync: Option<String>,
    /// delay writes, in ms (the first 60 of them)
    pub slow_ms: u64,
    pub slowed: usize,
    pub writes: usize,
    pub failed: usize,
    /// (path, size) of the successful fsyncs
    pub synced: Vec<(String, u64)>,
}
pub static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

pub fn set(p: Plan) {
    *PLAN.lock().unwrap() = Some(p);
}
pub fn take() -> Plan {
    PLAN.lock().unwrap().take().unwrap_or_default()
}
/// The machine, not a plan, made a call fail (no space, for example): what a
/// case observes after that says nothing about the code.
pub static REAL_ERROR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
unsafe fn real(r: i64) -> i64 {
    if r < 0 && matches!(*libc::__errno_location(), libc::ENOSPC | libc::EDQUOT | libc::EIO | libc::ENOMEM) {
        REAL_ERROR.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    r
}
fn path_of(fd: i32) -> String {
    std::fs::read_link(format!("/proc/self/fd/{}", fd)).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}
unsafe fn err(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
fn with<R>(fd: i32, f: impl FnOnce(&mut Plan, &str) -> R) -> Option<R> {
    let mut g = PLAN.lock().ok()?;
    let p = g.as_mut()?;
    if p.dir.is_empty() {
        return None;
    }
    let path = path_of(fd);
    if !path.starts_with(&p.dir) {
        return None;
    }
    Some(f(p, &path))
}

/// How a write of `n` bytes goes: an error, or the number of bytes to write.
unsafe fn plan_write(fd: i32, n: usize) -> Result<usize, i32> {
    let mut n = n;
    if fd <= 2 {
        return Ok(n);
    }
    let mut slow = 0;
    let mut errno = 0;
    let fail = with(fd, |p, path| {
        if let Some(k) = p.short_write {
            n = n.min(k);
        }
        p.slowed += 1;
        slow = if p.slowed <= 60 { p.slow_ms } else { 0 };
        errno = p.errno;
        if let Some((end, k)) = &p.fail_write {
            if path.ends_with(end.as_str()) {
                let me = p.writes;
                p.writes += 1;
                if me == *k || (me > *k && !p.once) {
                    p.failed += 1;
                    return true;
                }
            }
        }
        false
    });
    if fail == Some(true) {
        return Err(if errno == 0 { libc::ENOSPC } else { errno });
    }
    if slow > 0 {
        std::thread::sleep(std::time::Duration::from_millis(slow));
    }
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    match plan_write(fd, n) {
        Ok(n) => real(libc::syscall(libc::SYS_write, fd, buf, n)) as isize,
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    match plan_write(fd, n) {
        Ok(n) => real(libc::syscall(libc::SYS_pwrite64, fd, buf, n, off)) as isize,
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    let v = std::slice::from_raw_parts(iov, cnt.max(0) as usize);
    let total = v.iter().map(|x| x.iov_len).sum();
    match plan_write(fd, total) {
        Ok(n) if n == total => real(libc::syscall(libc::SYS_writev, fd, iov, cnt)) as isize,
        // a short one: the first piece that is not empty, or a part of it
        Ok(n) => match v.iter().find(|x| x.iov_len > 0) {
            Some(x) => real(libc::syscall(libc::SYS_write, fd, x.iov_base, n.min(x.iov_len))) as isize,
            None => 0,
        },
        Err(e) => err(e),
    }
}
unsafe fn sync_common(nr: libc::c_long, fd: i32) -> i32 {
    let mut errno = 0;
    let fail = with(fd, |p, path| match &p.fail_sync {
        Some(e) if path.ends_with(e.as_str()) => {
            p.failed += 1;
            errno = p.errno;
            true
        }
        _ => false,
    });
    if fail == Some(true) {
        return err(if errno == 0 { libc::EIO } else { errno }) as i32;
    }
    let mut st: libc::stat = std::mem::zeroed();
    libc::fstat(fd, &mut st);
    // scratch files need no real sync
    if with(fd, |p, path| p.synced.push((path.to_string(), st.st_size as u64))).is_some() {
        return 0;
    }
    libc::syscall(nr, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sync_common(libc::SYS_fsync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sync_common(libc::SYS_fdatasync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    let mut slow = 0;
    let fail = with(fd, |p, _| {
        if let Some((o, ms)) = p.slow_read_at {
            if off as u64 == o {
                slow = ms;
            }
        }
        if let Some(k) = p.short_read {
            n = n.min(k);
        }
        if let Some(at) = p.fail_read_at {
            if (off as u64) <= at && at < off as u64 + n as u64 {
                p.failed += 1;
                return true;
            }
        }
        false
    });
    if fail == Some(true) {
        return err(libc::EIO);
    }
    if slow > 0 {
        std::thread::sleep(std::time::Duration::from_millis(slow));
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize
}
