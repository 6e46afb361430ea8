//! libc symbols the Rust standard library uses for file-system access, time, randomness and
//! futexes, re-defined in this executable. While an environment is active they are answered by
//! the file-system model (vfs.rs); otherwise they go to the real libc. The code under test is
//! therefore the unmodified crate: nothing in it knows it runs in a model.
use crate::sched;
use crate::vfs::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;

pub enum Open {
    File { node: u32, data: Arc<Vec<u8>>, pos: usize },
    Dir { node: u32, names: Vec<(Box<[u8]>, u32)>, pos: usize, ent: Box<libc::dirent64> },
}

/// What a hook decides about one file-system call.
pub enum Verdict {
    Go,
    Fail(i32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Stat,
    Open,
    Read,
    Realpath,
    Readlink,
    Opendir,
}

pub struct Env {
    pub vfs: Vfs,
    pub open: Vec<Option<Open>>,
    pub calls: u64,
    pub opens: Vec<u64>,
    pub limit: u64,
    pub seed: u64,
    #[allow(clippy::type_complexity)]
    pub hook: Option<Box<dyn FnMut(&mut Vfs, u64, Call, &[u8]) -> Verdict>>,
}

impl Env {
    pub fn new(vfs: Vfs) -> Self {
        Env { vfs, open: vec![], calls: 0, opens: vec![], limit: 400_000, seed: 0x5eed, hook: None }
    }
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicU32 = AtomicU32::new(0);
static mut ENV: Option<Box<Env>> = None;
pub static TOTAL_CALLS: AtomicU64 = AtomicU64::new(0);
/// Called (never returns) when a run exceeds its budget of file-system calls.
pub static ON_LIMIT: AtomicUsize = AtomicUsize::new(0);

const VFD: c_int = 1 << 20;

pub fn active() -> bool {
    ACTIVE.load(Relaxed) && !sched::bypassed()
}

/// Installs `env` and runs `f` inside it, then hands the environment back.
pub fn with_env<T>(env: Box<Env>, f: impl FnOnce() -> T) -> (T, Box<Env>) {
    unsafe {
        #[allow(static_mut_refs)]
        {
            ENV = Some(env);
        }
        ACTIVE.store(true, SeqCst);
        let r = f();
        ACTIVE.store(false, SeqCst);
        #[allow(static_mut_refs)]
        let env = ENV.take().unwrap();
        TOTAL_CALLS.fetch_add(env.calls, Relaxed);
        (r, env)
    }
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(0, Release);
    }
}

#[allow(static_mut_refs)]
pub fn env<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    // the environment belongs to the one thread that runs, which does not change in here
    while LOCK.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let _g = Guard;
    sched::bypass(|| unsafe { f(ENV.as_mut().expect("no environment")) })
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

/// Counts the calls for whoever watches this process.
pub static BEAT: std::sync::atomic::AtomicPtr<std::sync::atomic::AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// One modelled file-system call: scheduling point, budget, fault/mutation hook, then `f`.
fn fs_call<T>(kind: Call, path: &[u8], f: impl FnOnce(&mut Env) -> Result<T, i32>) -> Result<T, i32> {
    sched::fs_point();
    env(|e| {
        e.calls += 1;
        if let Some(b) = unsafe { BEAT.load(Relaxed).as_ref() } {
            b.fetch_add(1, Relaxed);
        }
        if e.calls > e.limit {
            let h = ON_LIMIT.load(Relaxed);
            if h != 0 {
                let h: fn() -> ! = unsafe { std::mem::transmute(h) };
                h();
            }
        }
        if kind == Call::Open && e.opens.len() < 4096 {
            e.opens.push(e.calls);
        }
        if let Some(mut h) = e.hook.take() {
            let n = e.calls;
            let v = h(&mut e.vfs, n, kind, path);
            e.hook = Some(h);
            if let Verdict::Fail(errno) = v {
                return Err(errno);
            }
        }
        f(e)
    })
}

fn ret<T>(r: Result<T, i32>, ok: impl FnOnce(T) -> c_int) -> c_int {
    match r {
        Ok(v) => ok(v),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn real(name: &'static CStr, cell: &AtomicUsize) -> usize {
    let p = cell.load(Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    cell.store(p, Relaxed);
    p
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static CELL: AtomicUsize = AtomicUsize::new(0);
        let p = real(match CStr::from_bytes_with_nul(concat!($name, "\0").as_bytes()) { Ok(c) => c, Err(_) => unreachable!() }, &CELL);
        assert!(p != 0, concat!("no real ", $name));
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

struct Meta {
    mode: u32,
    size: u64,
    ino: u64,
    mtime: i64,
}

fn meta(v: &Vfs, n: u32) -> Meta {
    let node = &v.nodes[n as usize];
    let (mode, size) = match &node.kind {
        Kind::Dir(_) => (libc::S_IFDIR | 0o755, 4096),
        Kind::File(d) => (libc::S_IFREG | 0o644, d.len() as u64),
        Kind::Link(t) => (libc::S_IFLNK | 0o777, t.len() as u64),
        Kind::Special => (libc::S_IFSOCK | 0o600, 0),
    };
    Meta { mode, size, ino: n as u64 + 1000, mtime: node.mtime }
}

unsafe fn fill_stat64(b: *mut libc::stat64, m: &Meta) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).st_dev = 77;
    (*b).st_ino = m.ino;
    (*b).st_nlink = 1;
    (*b).st_mode = m.mode;
    (*b).st_size = m.size as i64;
    (*b).st_blksize = 4096;
    (*b).st_mtime = m.mtime.div_euclid(1_000_000_000);
    (*b).st_mtime_nsec = m.mtime.rem_euclid(1_000_000_000);
    (*b).st_atime = (*b).st_mtime;
    (*b).st_ctime = (*b).st_mtime;
}

unsafe fn fill_statx(b: *mut libc::statx, m: &Meta) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).stx_mask = libc::STATX_BASIC_STATS | libc::STATX_BTIME;
    (*b).stx_blksize = 4096;
    (*b).stx_nlink = 1;
    (*b).stx_mode = m.mode as u16;
    (*b).stx_ino = m.ino;
    (*b).stx_size = m.size;
    (*b).stx_mtime.tv_sec = m.mtime.div_euclid(1_000_000_000);
    (*b).stx_mtime.tv_nsec = m.mtime.rem_euclid(1_000_000_000) as u32;
    (*b).stx_atime = (*b).stx_mtime;
    (*b).stx_ctime = (*b).stx_mtime;
    (*b).stx_btime = (*b).stx_mtime;
    (*b).stx_dev_major = 0;
    (*b).stx_dev_minor = 77;
}

fn base(e: &Env, dirfd: c_int) -> Result<u32, i32> {
    if dirfd == libc::AT_FDCWD {
        return Ok(e.vfs.cwd);
    }
    match e.open.get((dirfd - VFD) as usize) {
        Some(Some(Open::Dir { node, .. })) => Ok(*node),
        Some(Some(Open::File { .. })) => Err(ENOTDIR),
        _ => Err(libc::EBADF),
    }
}

fn stat_path(dirfd: c_int, path: &[u8], follow: bool) -> Result<Meta, i32> {
    fs_call(Call::Stat, path, |e| {
        let b = base(e, dirfd)?;
        let n = e.vfs.walk_at(b, path, follow)?;
        Ok(meta(&e.vfs, n))
    })
}

fn stat_fd(fd: c_int) -> Result<Meta, i32> {
    fs_call(Call::Stat, b"<fd>", |e| {
        let n = match e.open.get((fd - VFD) as usize) {
            Some(Some(Open::Dir { node, .. })) => *node,
            Some(Some(Open::File { node, .. })) => *node,
            _ => return Err(libc::EBADF),
        };
        Ok(meta(&e.vfs, n))
    })
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    if dirfd >= VFD && !path.is_null() && *path == 0 && flags & libc::AT_EMPTY_PATH != 0 {
        return ret(stat_fd(dirfd), |m| {
            fill_statx(buf, &m);
            0
        });
    }
    if !active() || path.is_null() || (dirfd != libc::AT_FDCWD && dirfd < VFD) {
        return real!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int)(
            dirfd, path, flags, mask, buf,
        );
    }
    ret(stat_path(dirfd, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0), |m| {
        fill_statx(buf, &m);
        0
    })
}

macro_rules! stat_fn {
    ($name:ident, $lit:literal, $follow:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, buf: *mut libc::stat64) -> c_int {
            if !active() {
                return real!($lit, fn(*const c_char, *mut libc::stat64) -> c_int)(path, buf);
            }
            ret(stat_path(libc::AT_FDCWD, bytes(path), $follow), |m| {
                fill_stat64(buf, &m);
                0
            })
        }
    };
}
stat_fn!(stat, "stat", true);
stat_fn!(stat64, "stat64", true);
stat_fn!(lstat, "lstat", false);
stat_fn!(lstat64, "lstat64", false);

macro_rules! fstat_fn {
    ($name:ident, $lit:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *mut libc::stat64) -> c_int {
            if fd < VFD {
                return real!($lit, fn(c_int, *mut libc::stat64) -> c_int)(fd, buf);
            }
            ret(stat_fd(fd), |m| {
                fill_stat64(buf, &m);
                0
            })
        }
    };
}
fstat_fn!(fstat, "fstat");
fstat_fn!(fstat64, "fstat64");

macro_rules! fstatat_fn {
    ($name:ident, $lit:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(
            dirfd: c_int,
            path: *const c_char,
            buf: *mut libc::stat64,
            flags: c_int,
        ) -> c_int {
            if !active() || (dirfd != libc::AT_FDCWD && dirfd < VFD) {
                return real!($lit, fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(
                    dirfd, path, buf, flags,
                );
            }
            ret(stat_path(dirfd, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0), |m| {
                fill_stat64(buf, &m);
                0
            })
        }
    };
}
fstatat_fn!(fstatat, "fstatat");
fstatat_fn!(fstatat64, "fstatat64");

fn access_impl(dirfd: c_int, path: &[u8]) -> c_int {
    ret(stat_path(dirfd, path, true), |_| 0)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !active() {
        return real!("access", fn(*const c_char, c_int) -> c_int)(path, mode);
    }
    access_impl(libc::AT_FDCWD, bytes(path))
}

#[no_mangle]
pub unsafe extern "C" fn faccessat(dirfd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if !active() {
        return real!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int)(dirfd, path, mode, flags);
    }
    access_impl(dirfd, bytes(path))
}

fn new_fd(e: &mut Env, o: Open) -> c_int {
    let i = e.open.iter().position(|s| s.is_none()).unwrap_or_else(|| {
        e.open.push(None);
        e.open.len() - 1
    });
    e.open[i] = Some(o);
    VFD + i as c_int
}

fn open_impl(dirfd: c_int, path: &[u8], flags: c_int) -> c_int {
    let r = fs_call(Call::Open, path, |e| {
        if flags & libc::O_ACCMODE != libc::O_RDONLY {
            return Err(EACCES); // the resolver has no business writing
        }
        let b = base(e, dirfd)?;
        let n = e.vfs.walk_at(b, path, flags & libc::O_NOFOLLOW == 0)?;
        let o = match &e.vfs.nodes[n as usize].kind {
            Kind::File(d) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                Open::File { node: n, data: d.clone(), pos: 0 }
            }
            Kind::Dir(m) => Open::Dir {
                node: n,
                names: m.iter().map(|(k, v)| (k.clone(), *v)).collect(),
                pos: 0,
                ent: Box::new(unsafe { std::mem::zeroed() }),
            },
            Kind::Link(_) => return Err(ELOOP),
            Kind::Special => return Err(ENXIO),
        };
        Ok(new_fd(e, o))
    });
    ret(r, |fd| fd)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return real!("open", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode);
    }
    open_impl(libc::AT_FDCWD, bytes(path), flags)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return real!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode);
    }
    open_impl(libc::AT_FDCWD, bytes(path), flags)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return real!("openat", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(dirfd, path, flags, mode);
    }
    open_impl(dirfd, bytes(path), flags)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return real!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(dirfd, path, flags, mode);
    }
    open_impl(dirfd, bytes(path), flags)
}

unsafe fn read_impl(fd: c_int, buf: *mut c_void, n: size_t, at: Option<i64>) -> ssize_t {
    let r = fs_call(Call::Read, b"<fd>", |e| match e.open.get_mut((fd - VFD) as usize) {
        Some(Some(Open::File { data, pos, .. })) => {
            let p = at.map(|a| a as usize).unwrap_or(*pos).min(data.len());
            let k = n.min(data.len() - p);
            std::ptr::copy_nonoverlapping(data[p..].as_ptr(), buf as *mut u8, k);
            if at.is_none() {
                *pos = p + k;
            }
            Ok(k as ssize_t)
        }
        Some(Some(Open::Dir { .. })) => Err(EISDIR),
        _ => Err(libc::EBADF),
    });
    match r {
        Ok(k) => k,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd < VFD {
        return real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n);
    }
    read_impl(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if fd < VFD {
        return real!("pread64", fn(c_int, *mut c_void, size_t, i64) -> ssize_t)(fd, buf, n, off);
    }
    read_impl(fd, buf, n, Some(off))
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < VFD {
        return real!("lseek64", fn(c_int, i64, c_int) -> i64)(fd, off, whence);
    }
    env(|e| match e.open.get_mut((fd - VFD) as usize) {
        Some(Some(Open::File { data, pos, .. })) => {
            let b = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => *pos as i64,
                _ => data.len() as i64,
            };
            *pos = (b + off).max(0) as usize;
            *pos as i64
        }
        _ => {
            set_errno(libc::EBADF);
            -1
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < VFD {
        return real!("close", fn(c_int) -> c_int)(fd);
    }
    env(|e| {
        if let Some(s) = e.open.get_mut((fd - VFD) as usize) {
            *s = None;
        }
    });
    0
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        return real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out);
    }
    match fs_call(Call::Realpath, bytes(path), |e| e.vfs.realpath(bytes(path))) {
        Ok(p) => {
            let out = if out.is_null() { libc::malloc(p.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(p.as_ptr(), out as *mut u8, p.len());
            *out.add(p.len()) = 0;
            out
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

unsafe fn readlink_impl(dirfd: c_int, path: &[u8], buf: *mut c_char, n: size_t) -> ssize_t {
    let r = fs_call(Call::Readlink, path, |e| {
        let b = base(e, dirfd)?;
        let id = e.vfs.walk_at(b, path, false)?;
        match &e.vfs.nodes[id as usize].kind {
            Kind::Link(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                Ok(k as ssize_t)
            }
            _ => Err(EINVAL),
        }
    });
    match r {
        Ok(k) => k,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return real!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t)(path, buf, n);
    }
    readlink_impl(libc::AT_FDCWD, bytes(path), buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(dirfd: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return real!("readlinkat", fn(c_int, *const c_char, *mut c_char, size_t) -> ssize_t)(dirfd, path, buf, n);
    }
    readlink_impl(dirfd, bytes(path), buf, n)
}

// Directory streams: a virtual DIR* is the address of a boxed fd, recognised by its magic.
#[repr(C)]
struct VDir {
    magic: u64,
    fd: c_int,
}
const MAGIC: u64 = 0x7664_6972_6d63_6d63;

unsafe fn vdir(d: *mut libc::DIR) -> Option<c_int> {
    let v = d as *mut VDir;
    if !d.is_null() && std::ptr::read_unaligned(v as *const u64) == MAGIC {
        Some((*v).fd)
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if !active() {
        return real!("opendir", fn(*const c_char) -> *mut libc::DIR)(path);
    }
    let fd = open_impl(libc::AT_FDCWD, bytes(path), libc::O_DIRECTORY);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    Box::into_raw(Box::new(VDir { magic: MAGIC, fd })) as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if fd < VFD {
        return real!("fdopendir", fn(c_int) -> *mut libc::DIR)(fd);
    }
    Box::into_raw(Box::new(VDir { magic: MAGIC, fd })) as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let Some(fd) = vdir(d) else {
        return real!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64)(d);
    };
    env(|e| {
        let kind = |e: &Env, n: u32| match &e.vfs.nodes[n as usize].kind {
            Kind::Dir(_) => libc::DT_DIR,
            Kind::File(_) => libc::DT_REG,
            Kind::Link(_) => libc::DT_LNK,
            Kind::Special => libc::DT_SOCK,
        };
        let i = (fd - VFD) as usize;
        let (name, n) = match e.open.get_mut(i) {
            Some(Some(Open::Dir { names, pos, .. })) if *pos < names.len() => {
                *pos += 1;
                names[*pos - 1].clone()
            }
            _ => return std::ptr::null_mut(),
        };
        let k = kind(e, n);
        match e.open.get_mut(i) {
            Some(Some(Open::Dir { ent, .. })) => {
                ent.d_ino = n as u64 + 1000;
                ent.d_type = k;
                ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                for (j, b) in name.iter().enumerate() {
                    ent.d_name[j] = *b as c_char;
                }
                ent.d_name[name.len()] = 0;
                &mut **ent as *mut libc::dirent64
            }
            _ => std::ptr::null_mut(),
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    match vdir(d) {
        Some(fd) => fd,
        None => real!("dirfd", fn(*mut libc::DIR) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    match vdir(d) {
        Some(fd) => {
            (*(d as *mut VDir)).magic = 0;
            drop(Box::from_raw(d as *mut VDir));
            close(fd)
        }
        None => real!("closedir", fn(*mut libc::DIR) -> c_int)(d),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        return real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(buf, n);
    }
    let p = env(|e| e.vfs.path_of(e.vfs.cwd));
    if p.len() + 1 > n {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
    *buf.add(p.len()) = 0;
    buf
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> c_int {
    if !active() || (clk != libc::CLOCK_REALTIME && clk != libc::CLOCK_MONOTONIC) {
        return real!("clock_gettime", fn(libc::clockid_t, *mut libc::timespec) -> c_int)(clk, tp);
    }
    let now = env(|e| e.vfs.now);
    (*tp).tv_sec = now.div_euclid(1_000_000_000);
    (*tp).tv_nsec = now.rem_euclid(1_000_000_000);
    0
}

fn split_mix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Seed for hash keys handed out outside an environment too, so that nothing is left to chance.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: c_uint) -> ssize_t {
    let mut s = HASH_SEED.load(Relaxed);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for c in out.chunks_mut(8) {
        let b = split_mix(&mut s).to_le_bytes();
        c.copy_from_slice(&b[..c.len()]);
    }
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if num == libc::SYS_futex && sched::in_model_thread() {
        let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let w = &*(a as *const AtomicU32);
            if w.load(SeqCst) != c as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            sched::blocked(a, d != 0);
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            sched::released(a);
        }
    }
    if num == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    real!("syscall", fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long)(num, a, b, c, d, e, f)
}
