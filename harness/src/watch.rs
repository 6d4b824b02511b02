//! The C library's calls that change something, watched while the library under test runs (C24);
//! and the paths it opens (C15).  Only in the plain build: `--cfg mon_watch`.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
pub static SEEN: AtomicU64 = AtomicU64::new(0);
static EFFECTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static OPENED: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());

thread_local! {
    static OWN: Cell<u32> = const { Cell::new(0) };
}

/// what the harness does itself while it watches
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            let _ = OWN.try_with(|o| o.set(o.get() - 1));
        }
    }
    OWN.with(|o| o.set(o.get() + 1));
    let _back = Back;
    f()
}

/// runs f and reports what it changed and what it opened
pub fn watched<T>(f: impl FnOnce() -> T) -> (T, Vec<String>, Vec<Vec<u8>>) {
    EFFECTS.lock().unwrap().clear();
    OPENED.lock().unwrap().clear();
    let outer = ON.swap(true, Relaxed);
    let r = f();
    ON.store(outer, Relaxed);
    let (e, o) = (std::mem::take(&mut *EFFECTS.lock().unwrap()), std::mem::take(&mut *OPENED.lock().unwrap()));
    (r, e, o)
}

/// the same within another watch, whose findings stay
pub fn nested<T>(f: impl FnOnce() -> T) -> (T, Vec<String>, Vec<Vec<u8>>) {
    let before = (EFFECTS.lock().unwrap().clone(), OPENED.lock().unwrap().clone());
    let r = watched(f);
    let mut e = EFFECTS.lock().unwrap();
    *e = before.0;
    e.extend(r.1.iter().cloned());
    *OPENED.lock().unwrap() = before.1;
    r
}

#[cfg(mon_watch)]
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod hooks {
    use super::*;
    use std::ffi::CStr;
    use std::os::raw::{c_char, c_int, c_uint, c_void};

    fn watching() -> bool {
        ON.load(Relaxed) && OWN.try_with(|o| o.get() == 0).unwrap_or(false)
    }

    unsafe fn text(p: *const c_char) -> Vec<u8> {
        if p.is_null() { vec![] } else { CStr::from_ptr(p).to_bytes().to_vec() }
    }

    unsafe fn effect(what: &str, p: *const c_char) {
        if watching() {
            own(|| EFFECTS.lock().unwrap().push(format!("{} {}", what, String::from_utf8_lossy(&text(p)))));
        }
    }

    unsafe fn opening(p: *const c_char, flags: c_int) {
        if watching() {
            SEEN.fetch_add(1, Relaxed);
            if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
                effect("open for creation or truncation:", p);
            }
            own(|| OPENED.lock().unwrap().push(text(p)));
        }
    }

    macro_rules! next {
        ($name:literal, $t:ty) => {{
            use std::sync::atomic::AtomicUsize;
            static AT: AtomicUsize = AtomicUsize::new(0);
            let mut p = AT.load(Relaxed);
            if p == 0 {
                p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
                AT.store(p, Relaxed);
            }
            std::mem::transmute::<*const c_void, $t>(p as *const c_void)
        }};
    }

    // the mode is a variable argument there; passed on as a third one it arrives in the same place
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        opening(p, flags);
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        opening(p, flags);
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        opening(p, flags);
        libc::syscall(libc::SYS_openat, d, p, flags, mode) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        opening(p, flags);
        libc::syscall(libc::SYS_openat, d, p, flags, mode) as c_int
    }

    macro_rules! one_path {
        ($($f:ident $name:literal ($($a:ident : $t:ty),*) $p:expr;)*) => { $(
            #[no_mangle]
            pub unsafe extern "C" fn $f($($a: $t),*) -> c_int {
                effect($name, $p);
                next!($name, unsafe extern "C" fn($($t),*) -> c_int)($($a),*)
            }
        )* };
    }
    const NONE: *const c_char = std::ptr::null();
    one_path! {
        chdir "chdir" (p: *const c_char) p;
        fchdir "fchdir" (d: c_int) NONE;
        mkdir "mkdir" (p: *const c_char, m: c_uint) p;
        rmdir "rmdir" (p: *const c_char) p;
        unlink "unlink" (p: *const c_char) p;
        rename "rename" (a: *const c_char, b: *const c_char) a;
        symlink "symlink" (a: *const c_char, b: *const c_char) b;
        link "link" (a: *const c_char, b: *const c_char) b;
        linkat "linkat" (x: c_int, a: *const c_char, y: c_int, b: *const c_char, f: c_int) b;
        unlinkat "unlinkat" (x: c_int, a: *const c_char, f: c_int) a;
        chmod "chmod" (p: *const c_char, m: c_uint) p;
        fchmod "fchmod" (d: c_int, m: c_uint) NONE;
        truncate64 "truncate64" (p: *const c_char, n: i64) p;
        ftruncate64 "ftruncate64" (d: c_int, n: i64) NONE;
        futimens "futimens" (d: c_int, t: *const c_void) NONE;
        setenv "setenv" (k: *const c_char, v: *const c_char, o: c_int) k;
        unsetenv "unsetenv" (k: *const c_char) k;
        putenv "putenv" (k: *mut c_char) k as *const c_char;
    }
    #[no_mangle]
    pub unsafe extern "C" fn umask(m: c_uint) -> c_uint {
        effect("umask", NONE);
        libc::syscall(libc::SYS_umask, m) as c_uint
    }
}
