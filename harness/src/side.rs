//! What calls leave behind besides their answers: memory, handles, threads (C23); output, files,
//! environment (C24).  The workloads are those of the other properties; their verdicts are theirs.
use crate::gen::*;
use crate::watch;
use crate::props::{hash_case, unhex, Case, Obs, Verdict};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use Verdict::*;

/// the system's allocator, keeping count of what is in use
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

const DRIVERS: &[&str] = &["C03", "C04", "C05", "C05", "C06", "C06", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C15", "C19", "C21"];

fn inner(id: &str, c: &Ctx, r: &mut Rng) -> Case {
    loop {
        let x = (crate::spec(id).unwrap().gen)(c, r);
        let heavy = x.kind == "nest" || x.a.iter().map(|s| s.len()).sum::<usize>() > 30_000;
        if !heavy {
            return Case::new(&format!("{} {}", id, x.kind), x.a);
        }
    }
}

/// run a case of another property; false when the library panicked in it
fn drive(case: &Case, o: &mut Obs) -> bool {
    let (id, kind) = case.kind.split_once(' ').unwrap_or(("C05", "text"));
    let x = Case::new(kind, case.a.clone());
    let eval = crate::spec(id).unwrap().eval;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        eval(&x, o);
    }))
    .is_ok()
}

// ---------------------------------------------------------------- C23

pub fn gen_balance(c: &Ctx, r: &mut Rng) -> Case {
    let id = *r.pick(DRIVERS);
    inner(id, c, r)
}

pub fn enum_balance(_: &Ctx, seed: u64, thorough: bool) -> Vec<Case> {
    // one long stream of ever new texts for each worker
    let mut out = vec![];
    for k in 0..if thorough { 8 } else { 1 } {
        for (id, n) in [("C05", 100_000), ("C08", 60_000), ("C12", 24_000), ("C03", 40_000), ("C06", 16_000), ("C10", 16_000), ("C15", 3_000), ("C09", 4_000)] {
            out.push(Case::new("stream", vec![id.to_string(), n.to_string(), (seed + 1000 * k).to_string()]));
        }
    }
    out
}

fn handles() -> (i64, i64) {
    let n = |d: &str| std::fs::read_dir(d).map(|x| x.count() as i64).unwrap_or(0);
    (n("/proc/self/fd"), n("/proc/self/task"))
}

pub fn eval_balance(case: &Case, o: &mut Obs) -> Verdict {
    let ctx = match o.ctx.take() {
        Some(c) => c,
        None => return Skip,
    };
    let mut p = Obs { scratch: o.scratch.clone(), ctx: Some(ctx), ..Obs::default() };
    let v = if case.kind == "stream" { stream(case, &mut p, o) } else { balance(case, &mut p, o) };
    o.ctx = p.ctx.take();
    v
}

fn balance(case: &Case, p: &mut Obs, o: &mut Obs) -> Verdict {
    for _ in 0..2 {
        if !drive(case, p) {
            return Skip;
        }
    }
    const ROUNDS: usize = 5;
    let before = handles();
    let made = CALLS.load(Relaxed);
    let mut live = vec![LIVE.load(Relaxed)];
    for _ in 0..ROUNDS {
        drive(case, p);
        live.push(LIVE.load(Relaxed));
    }
    let made = CALLS.load(Relaxed) - made;
    let after = handles();
    if live.windows(2).all(|w| w[1] > w[0]) {
        // more of the same
        let mut more = vec![LIVE.load(Relaxed)];
        more.reserve(32);
        more[0] = LIVE.load(Relaxed);
        for _ in 0..20 {
            drive(case, p);
            more.push(LIVE.load(Relaxed));
        }
        if more.windows(2).all(|w| w[1] > w[0]) {
            return Bad(format!("each repetition of the same calls keeps more memory, {} bytes in all after 20", more[20] - more[0]));
        }
    }
    if after.0 - before.0 >= ROUNDS as i64 {
        return Bad(format!("each repetition of the same calls leaves a file open: {} before, {} after {}", before.0, after.0, ROUNDS));
    }
    if after.1 - before.1 >= ROUNDS as i64 {
        return Bad(format!("each repetition of the same calls leaves a thread: {} before, {} after {}", before.1, after.1, ROUNDS));
    }
    o.hit("repeated_cases");
    o.hit(&format!("calls of {}", &case.kind[..3]));
    o.add("allocations_watched", made);
    if made > 0 { Held } else { Trivial }
}

fn stream(case: &Case, p: &mut Obs, o: &mut Obs) -> Verdict {
    let (n, seed): (u64, u64) = (case.a[1].parse().unwrap_or(0), case.a[2].parse().unwrap_or(0));
    let quarter = (n / 4).max(1);
    let ctx = match &p.ctx {
        Some(c) => c.clone(),
        None => return Skip,
    };
    let mut low: Vec<i64> = vec![];
    low.reserve(64);
    // what is built once (tables, caches of some size) may grow, but not by the number of texts
    let step = (quarter as i64 / 2).max(4096);
    let mut quarters = 4;
    let mut q = 0;
    while q < quarters {
        let mut least = i64::MAX;
        for i in q * quarter..(q + 1) * quarter {
            let mut r = Rng::new(&[seed, 23, i]);
            let x = inner(&case.a[0], &ctx, &mut r);
            if !drive(&x, p) {
                return Skip;
            }
            drop(x);
            least = least.min(LIVE.load(Relaxed));
        }
        low.push(least);
        o.add("streamed_cases", quarter);
        q += 1;
        if q == 4 && low[1..].windows(2).all(|w| w[1] - w[0] > step) {
            // does it end?
            quarters = 16;
        }
        if q > 4 && low[low.len() - 1] - low[low.len() - 2] <= step {
            quarters = q;
        }
    }
    let grown = low[low.len() - 1] - low[1];
    if q == 16 {
        return Bad(format!("{} new texts leave {} bytes in use for good, and more with every text", (q - 1) * quarter, grown));
    }
    o.add("bytes_grown_in_streams", grown.max(0) as u64);
    Held
}

// ---------------------------------------------------------------- C24

pub fn gen_quiet(c: &Ctx, r: &mut Rng) -> Case {
    let id = *r.pick(DRIVERS);
    inner(id, c, r)
}

type Listing = BTreeMap<String, (u64, i128, u32)>;

fn listing(dir: &str) -> Listing {
    use std::os::unix::fs::MetadataExt;
    let mut out = Listing::new();
    let mut todo = vec![dir.to_string()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path().display().to_string();
            if let Ok(m) = std::fs::symlink_metadata(&p) {
                if m.is_dir() {
                    todo.push(p.clone());
                }
                out.insert(p, (if m.is_dir() { 0 } else { m.len() }, if m.is_dir() { 0 } else { m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128 }, m.mode()));
            }
        }
    }
    out
}

fn env_hash() -> u64 {
    let mut v: Vec<String> = std::env::vars_os().map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
    v.sort();
    hash_case(&Case::new("env", v))
}

pub fn eval_quiet(case: &Case, o: &mut Obs) -> Verdict {
    let base = o.scratch.clone();
    let (room, files, sink) = (format!("{}/room", base), format!("{}/files", base), format!("{}/sink", base));
    let fresh = !std::path::Path::new(&room).is_dir();
    if fresh {
        for d in [&room, &files] {
            if std::fs::create_dir_all(d).is_err() {
                return Skip;
            }
        }
        let _ = std::fs::write(format!("{}/repodata.json", room), b"{}");
    }
    for k in ["HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME"] {
        std::env::set_var(k, &room);
    }
    // nothing else, or a change to it would go unseen
    for (k, _) in std::env::vars_os() {
        let keep = k.to_str().map_or(false, |k| matches!(k, "PATH" | "HOME" | "TMPDIR" | "RUST_MIN_STACK") || k.starts_with("XDG_") || k.starts_with("LD_"));
        if !keep {
            std::env::remove_var(&k);
        }
    }
    let home = std::env::current_dir();
    if std::env::set_current_dir(&room).is_err() {
        return Skip;
    }
    let ctx = o.ctx.take();
    let mut p = Obs { scratch: files.clone(), ctx, ..Obs::default() };
    let (room0, env0) = (listing(&room), env_hash());
    let mask0 = unsafe { let m = libc::umask(0o22); libc::umask(m); m };
    let sinkf = std::fs::File::create(&sink);
    let (mut ok, mut printed, mut content, mut files0, mut effects) = (false, vec![], vec![], Listing::new(), vec![]);
    if let Ok(f) = &sinkf {
        use std::os::unix::io::AsRawFd;
        let (so, se) = unsafe { (libc::dup(1), libc::dup(2)) };
        unsafe {
            libc::dup2(f.as_raw_fd(), 1);
            libc::dup2(f.as_raw_fd(), 2);
        }
        // twice: the driver writes the files it then lets the library read
        let (done, changed, _) = watch::watched(|| drive(case, &mut p));
        ok = done;
        effects = changed;
        o.add("opens_watched", watch::SEEN.swap(0, Relaxed));
        content = std::fs::read(format!("{}/repodata.json", files)).unwrap_or_default();
        files0 = listing(&files);
        if ok {
            drive(case, &mut p);
        }
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(so, 1);
            libc::dup2(se, 2);
            libc::close(so);
            libc::close(se);
        }
        printed = std::fs::read(&sink).unwrap_or_default();
    }
    let mask1 = unsafe { let m = libc::umask(0o22); libc::umask(m); m };
    let cwd = std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default();
    let (room1, files1, env1) = (listing(&room), listing(&files), env_hash());
    let content1 = std::fs::read(format!("{}/repodata.json", files)).unwrap_or_default();
    if let Ok(h) = home {
        let _ = std::env::set_current_dir(h);
    }
    o.ctx = p.ctx.take();
    if !ok || sinkf.is_err() {
        return Skip;
    }
    let judge = || -> Verdict {
        if !printed.is_empty() {
            return Bad(format!("the calls print {:?}", String::from_utf8_lossy(&printed[..printed.len().min(120)])));
        }
        if let Some(e) = effects.first() {
            return Bad(format!("the calls change something, if only for a while: {}", e));
        }
        let names = |l: &Listing| l.keys().cloned().collect::<Vec<_>>();
        if room1 != room0 {
            return Bad(format!("the calls leave files behind or change them in the working, home or temporary directory: {:?} instead of {:?}", names(&room1), names(&room0)));
        }
        const OWN: [&str; 3] = ["repodata.json", "total.json", "paths"];
        if files1.keys().any(|k| !OWN.contains(&&k[files.len() + 1..]) && !k[files.len() + 1..].starts_with("paths/")) {
            return Bad(format!("the calls leave files beside the one they read: {:?} instead of {:?}", names(&files1), OWN));
        }
        let mode = |l: &Listing| l.values().map(|x| x.2).collect::<Vec<_>>();
        if content1 != content || mode(&files1) != mode(&files0) {
            return Bad("the file that was read is another one afterwards".into());
        }
        if case.kind == "C14 doc" && content1 != case.a[0].as_bytes() || matches!(case.kind.as_str(), "C15 bad" | "C15 any") && content1 != unhex(&case.a[0]) {
            return Bad("the file that was read is not what was written there".into());
        }
        if env1 != env0 || mask1 != mask0 || cwd != std::fs::canonicalize(&room).map(|d| d.display().to_string()).unwrap_or_default() {
            return Bad("the calls change the environment, the working directory or the file mask".into());
        }
        Held
    };
    let v = judge();
    o.hit("watched_cases");
    o.hit(&format!("calls of {}", &case.kind[..3]));
    if !matches!(v, Held) {
        // next time from the start
        let _ = std::fs::remove_dir_all(&room);
        let _ = std::fs::remove_dir_all(&files);
    }
    v
}
