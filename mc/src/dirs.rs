//! Source directories for `build_from_directory`, scratch space, and control
//! over what the operating system answers (listing order, failing calls).
use crate::common::*;
use mclib::oracle as o;
use mclib::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- scratch

/// A directory that is removed when it goes out of scope.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> R<Scratch> {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("mc-{}-{tag}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        match std::fs::create_dir(&p) {
            Ok(()) => Ok(Scratch(p)),
            Err(e) => Err(Stop::Engine(format!("scratch directory {}: {e}", p.display()))),
        }
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        quiet(|| {
            let _ = std::fs::remove_dir_all(&self.0);
        });
    }
}
pub fn eng<X>(r: std::io::Result<X>) -> R<X> {
    r.map_err(|e| Stop::Engine(format!("harness I/O: {e}")))
}

/// For reading what the code under test has made: if it is not there, that is its fault.
pub fn made<X>(r: std::io::Result<X>) -> R<X> {
    use std::io::ErrorKind as K;
    r.map_err(|e| match e.kind() {
        K::NotFound | K::NotADirectory | K::IsADirectory => Stop::Violation { msg: format!("an output is missing: {e}"), key: None },
        _ => Stop::Engine(format!("harness I/O: {e}")),
    })
}

// ---------------------------------------------------------------- sources

pub const REQUIRED: [&str; 8] = [
    "DATA/sys/boot.bin",
    "DATA/disc/region.bin",
    "DATA/ticket.bin",
    "DATA/tmd.bin",
    "DATA/cert.bin",
    "DATA/sys/bi2.bin",
    "DATA/sys/apploader.img",
    "DATA/sys/main.dol",
];

#[derive(Clone)]
pub struct Src {
    pub part: PartIn,
    pub region: [u8; 32],
}
impl Src {
    pub fn new(tree: Vec<T>) -> Src {
        Src { part: PartIn::new(0, 7, Def::new(tree)), region: o::region(44) }
    }
    pub fn standard() -> Src {
        Src::new(vec![
            T::f("b.bin", 1, 0x123),
            T::d("Dir", vec![T::f("x", 2, 0), T::f("y.arc", 3, 0x8001)]),
            T::f("C", 4, 1),
        ])
    }
    pub fn file(&self, name: &str) -> Vec<u8> {
        match name {
            "DATA/sys/boot.bin" => self.part.def.hdr.clone(),
            "DATA/disc/region.bin" => self.region.to_vec(),
            "DATA/ticket.bin" => self.part.ticket.clone(),
            "DATA/tmd.bin" => self.part.tmd.clone(),
            "DATA/cert.bin" => self.part.certs.clone(),
            "DATA/sys/bi2.bin" => self.part.def.bi2.clone(),
            "DATA/sys/apploader.img" => self.part.def.app.clone(),
            _ => self.part.def.dol.clone(),
        }
    }
    pub fn write(&self, root: &Path) -> R<()> {
        quiet(|| {
            for d in ["DATA/sys", "DATA/disc", "DATA/files"] {
                eng(std::fs::create_dir_all(root.join(d)))?;
            }
            for f in REQUIRED {
                eng(std::fs::write(root.join(f), self.file(f)))?;
            }
            write_tree(&root.join("DATA/files"), &self.part.def.tree)
        })
    }
    /// What the image built from this directory must contain.
    pub fn disc(&self) -> DiscIn {
        let mut header = self.part.def.hdr.clone();
        header[0x60] = 0;
        header[0x61] = 0;
        let mut part = self.part.clone();
        part.def.tree = sorted(&self.part.def.tree);
        DiscIn { header, region: self.region, parts: vec![part] }
    }
}
pub fn write_tree(dir: &Path, t: &[T]) -> R<()> {
    for n in t {
        let p = dir.join(n.name());
        match n {
            T::F { id, size, .. } => eng(std::fs::write(&p, o::content(*id, *size)))?,
            T::D { kids, .. } => {
                eng(std::fs::create_dir(&p))?;
                write_tree(&p, kids)?;
            }
        }
    }
    Ok(())
}
/// Ordered by ASCII-lowercased name; directories without any file vanish
/// because directories only exist through their files.
pub fn sorted(t: &[T]) -> Vec<T> {
    let mut v: Vec<T> = t
        .iter()
        .filter_map(|n| match n {
            T::F { .. } => Some(n.clone()),
            T::D { name, kids } => {
                let k = sorted(kids);
                (!k.is_empty()).then(|| T::d(name, k))
            }
        })
        .collect();
    v.sort_by_key(|n| n.name().to_ascii_lowercase().into_bytes());
    v
}

// ---------------------------------------------------------------- system calls

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sys {
    Open,
    Read,
    Stat,
    OpenDir,
    ReadDir,
}
type FaultHook = Box<dyn FnMut(Sys, usize) -> Act>;
type OrderHook = Box<dyn FnMut(usize) -> Vec<usize>>;
#[derive(Default)]
struct Os {
    /// per opened directory: its entries in the order they will be listed
    dirs: HashMap<usize, (Vec<Vec<u8>>, usize)>,
    order: Option<OrderHook>,
    fault: Option<FaultHook>,
}
thread_local! {
    static OS: RefCell<Os> = RefCell::new(Os::default());
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
/// Runs harness code with all hooks out of the way.
pub fn quiet<X>(f: impl FnOnce() -> X) -> X {
    let b = BUSY.replace(true);
    let x = f();
    BUSY.set(b);
    x
}
struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        OS.with(|o| {
            let mut o = o.borrow_mut();
            o.order = None;
            o.fault = None;
        });
    }
}
/// Runs `f` while directory listings come in the order `order(n)` decides for
/// the name-sorted entries, and system calls behave as `fault` says.
pub fn with_os<X>(
    order: Option<Box<dyn FnMut(usize) -> Vec<usize> + '_>>,
    fault: Option<Box<dyn FnMut(Sys, usize) -> Act + '_>>,
    f: impl FnOnce() -> X,
) -> X {
    // SAFETY: the hooks are removed before this function returns or unwinds
    let order: Option<OrderHook> = order.map(|x| unsafe { std::mem::transmute(x) });
    let fault: Option<FaultHook> = fault.map(|x| unsafe { std::mem::transmute(x) });
    OS.with(|o| {
        let mut o = o.borrow_mut();
        o.order = order;
        o.fault = fault;
    });
    let _d = Disarm;
    f()
}
/// A permutation of n entries, every one of them explored.
pub fn permutation(ctx: &Ctx, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    while !rest.is_empty() {
        v.push(rest.remove(ctx.choose(rest.len())));
    }
    v
}

fn ask(s: Sys, n: usize) -> Act {
    if BUSY.with(|b| b.get()) {
        return Act::Ok;
    }
    let Some(mut h) = OS.with(|o| match o.try_borrow_mut() {
        Ok(mut o) => o.fault.take(),
        Err(_) => None,
    }) else {
        return Act::Ok;
    };
    let a = quiet(|| h(s, n));
    OS.with(|o| o.borrow_mut().fault = Some(h));
    a
}
fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e };
}
fn real(name: &std::ffi::CStr, cell: &AtomicU64) -> *mut c_void {
    let mut p = cell.load(Ordering::Relaxed);
    if p == 0 {
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as u64;
        cell.store(p, Ordering::Relaxed);
    }
    p as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    match ask(Sys::Read, n) {
        Act::Ok => {}
        Act::One => n = n.min(1),
        Act::Half => n = (n / 2).max(1).min(n),
        Act::Intr => {
            errno(libc::EINTR);
            return -1;
        }
        _ => {
            errno(libc::EIO);
            return -1;
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}
thread_local! {
    static SILENT: Cell<bool> = const { Cell::new(false) };
}
/// Runs `f` with everything it prints dropped.
pub fn silent<X>(f: impl FnOnce() -> X) -> X {
    struct Loud;
    impl Drop for Loud {
        fn drop(&mut self) {
            SILENT.set(false);
        }
    }
    SILENT.set(true);
    let _l = Loud;
    f()
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 && SILENT.try_with(|s| s.get()).unwrap_or(false) {
        return n as isize;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match ask(Sys::Open, 0) {
        Act::Ok => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int,
        Act::Intr => {
            errno(libc::EINTR);
            -1
        }
        _ => {
            errno(libc::EMFILE);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    match ask(Sys::Stat, 0) {
        Act::Ok => libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as c_int,
        _ => {
            errno(libc::EIO);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    static R: AtomicU64 = AtomicU64::new(0);
    if ask(Sys::OpenDir, 0) != Act::Ok {
        errno(libc::EMFILE);
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(real(c"opendir", &R));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    static R: AtomicU64 = AtomicU64::new(0);
    let _ = OS.try_with(|o| {
        if let Ok(mut o) = o.try_borrow_mut() {
            o.dirs.remove(&(d as usize));
        }
    });
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(real(c"closedir", &R));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    static R: AtomicU64 = AtomicU64::new(0);
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(real(c"readdir64", &R));
    if BUSY.with(|b| b.get()) {
        return f(d);
    }
    if ask(Sys::ReadDir, 0) != Act::Ok {
        errno(libc::EIO);
        return std::ptr::null_mut();
    }
    let known = OS.with(|o| o.borrow().dirs.contains_key(&(d as usize)));
    if !known {
        let Some(mut order) = OS.with(|o| o.borrow_mut().order.take()) else {
            return f(d);
        };
        let mut ents: Vec<Vec<u8>> = vec![];
        let mut dots: Vec<Vec<u8>> = vec![];
        loop {
            errno(0);
            let e = f(d);
            if e.is_null() {
                break;
            }
            let len = (*e).d_reclen as usize;
            let b = std::slice::from_raw_parts(e as *const u8, len).to_vec();
            let nm = &b[19..];
            if nm.starts_with(b".\0") || nm.starts_with(b"..\0") {
                dots.push(b);
            } else {
                ents.push(b);
            }
        }
        ents.sort_by(|a, b| a[19..].cmp(&b[19..]));
        let perm = quiet(|| order(ents.len()));
        let mut list: Vec<Vec<u8>> = perm.into_iter().map(|i| ents[i].clone()).collect();
        list.extend(dots);
        OS.with(|o| {
            let mut o = o.borrow_mut();
            o.order = Some(order);
            o.dirs.insert(d as usize, (list, 0));
        });
    }
    OS.with(|o| {
        let mut o = o.borrow_mut();
        let Some((list, i)) = o.dirs.get_mut(&(d as usize)) else { return std::ptr::null_mut() };
        if *i >= list.len() {
            errno(0);
            return std::ptr::null_mut();
        }
        let p = list[*i].as_mut_ptr() as *mut libc::dirent64;
        *i += 1;
        p
    })
}
