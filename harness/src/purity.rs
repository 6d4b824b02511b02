//! Answers must not depend on what was asked before, in which order, or by which thread.
use crate::gen::*;
use crate::props::*;
use ronda::verif_hooks::Spec;
use ronda::*;
use std::convert::TryFrom;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

/// what a caller may hand to another thread or share with it
const _: fn() = || {
    fn both<T: Send + Sync>() {}
    both::<Version>();
    both::<VersionPart>();
    both::<verif_hooks::VersionSpec>();
    both::<VersionSpecOrConstraintTree>();
    both::<ConstraintTree>();
    both::<Repodata>();
    both::<CompOp>();
    both::<verif_hooks::VersionParsingError>();
};

#[derive(Clone)]
enum Q {
    Cmp(usize, usize),
    Match(usize, usize),
    Parse(usize),
    Tree(usize),
    Op(usize),
    /// read file number k; or write that text where another was, and read it
    Read(usize),
    Rewrite(usize),
}

#[derive(Clone)]
struct World {
    versions: Vec<String>,
    specs: Vec<String>,
    signs: Vec<String>,
    docs: Vec<String>,
    qs: Vec<Q>,
    dir: String,
}

/// a text that a sloppy key (case, blanks, ends, length) confuses with `s`
fn lookalike(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    match r.below(8) {
        0..=2 => flip_case(r, s),
        3 => format!("{}.0", s),
        4 => {
            // same length, one place different
            if cs.is_empty() {
                return "1".into();
            }
            let i = r.below(cs.len());
            cs[i] = match cs[i] {
                '9' => '8',
                d if d.is_ascii_digit() => ((d as u8) + 1) as char,
                '.' => '_',
                'a' => 'b',
                _ => 'a',
            };
            cs.into_iter().collect()
        }
        5 => cs.into_iter().rev().collect(),
        6 => {
            // same characters, other order
            if cs.len() > 1 {
                let (i, j) = (r.below(cs.len()), r.below(cs.len()));
                cs.swap(i, j);
            }
            cs.into_iter().collect()
        }
        _ => format!(" {} ", s),
    }
}

/// another pair that a key which merely joins the two confuses with this one
fn resplit(r: &mut Rng, a: &str, b: &str) -> Option<(String, String)> {
    let sep = *r.pick(&["", "", ".", "-", "_", "+", "!", ",", "|", " ", ":", "/", "@", "="]);
    let t = format!("{}{}{}", a, sep, b);
    let at: Vec<usize> = if sep.is_empty() { (1..t.len()).filter(|i| t.is_char_boundary(*i)).collect() } else { t.match_indices(sep).map(|x| x.0).collect() };
    let at: Vec<usize> = at.into_iter().filter(|i| *i != a.len()).collect();
    if at.is_empty() {
        return None;
    }
    let i = *r.pick(&at);
    Some((t[..i].to_string(), t[i + sep.len()..].to_string()))
}

fn world(seed: u64, n: u64, c: &Ctx) -> World {
    let mut r = Rng::new(&[seed, 0x9117]);
    let mut versions: Vec<String> = vec![];
    // relatives of a few versions: same beginnings, same ends, same lengths
    while versions.len() < 160 {
        let k = r.range(8, 24);
        versions.extend(cluster(&mut r, c, if versions.len() < 120 { Opt { long: false, ..SPEC } } else { PLAIN }, k));
    }
    let mut specs: Vec<String> = vec![];
    // versions worth asking each spec about
    let mut near: Vec<Vec<usize>> = vec![];
    while specs.len() < 200 {
        let mut at: Vec<usize> = (0..3).map(|_| r.below(120)).collect();
        let texts: Vec<String> = at.iter().map(|i| versions[*i].clone()).collect();
        let s = match r.below(20) {
            0..=9 => leaf(&mut r, c, &texts[0]),
            10..=11 => {
                let p = glob_pattern(&mut r, c);
                for _ in 0..3 {
                    at.push(versions.len());
                    versions.push(glob_instance(&mut r, c, &p));
                }
                p
            }
            12 => {
                let x = rx_from(&mut r, &texts[0]);
                for _ in 0..2 {
                    let mut t = String::new();
                    rx_instance(&mut r, &x, &mut t);
                    at.push(versions.len());
                    versions.push(t);
                }
                rx_text(&x)
            }
            13 => format!("{}@{}", texts[0], texts[1]),
            _ => {
                let mut b = 8;
                let a = ast(&mut r, c, &texts, 3, &mut b);
                render(&mut r, &a, false)
            }
        };
        specs.push(s.clone());
        // what a lookalike of the spec decides differently is a lookalike of the version
        for k in at.clone() {
            if r.chance(30) && versions.len() < 420 {
                at.push(versions.len());
                let t = versions[k].clone();
                versions.push(lookalike(&mut r, &t));
            }
        }
        near.push(at.clone());
        while r.chance(35) {
            specs.push(lookalike(&mut r, &s));
            near.push(at.clone());
        }
        if r.chance(8) {
            specs.push(junk(&mut r, c));
            near.push(at);
        }
    }
    // questions whose operands run together into the same text
    let mut joined: Vec<Q> = vec![];
    for k in 0..240 {
        let (i, j) = (r.below(versions.len()), r.below(versions.len()));
        let (a, b) = (versions[i].clone(), versions[j].clone());
        if a.len() > 40 || b.len() > 40 {
            continue;
        }
        if k % 3 < 2 {
            // the mark the key might use, inside one of the operands
            let a = if r.chance(40) { format!("{}{}{}", a, r.pick(&["-", "_", ".", " ", ",", "|", ":", "/", "@", "="]), r.below(20)) } else { a };
            if let Some((x, y)) = resplit(&mut r, &a, &b) {
                let n = versions.len();
                versions.extend(vec![a, b, x, y]);
                joined.push(Q::Cmp(n, n + 1));
                joined.push(Q::Cmp(n + 2, n + 3));
            }
        } else {
            let s = spec_of(*r.pick(&["==", "!=", "<", "<=", ">", ">=", "bare", "="]), &a);
            if let Some((x, y)) = resplit(&mut r, &s, &b) {
                let (n, m) = (versions.len(), specs.len());
                versions.extend(vec![b, y]);
                specs.extend(vec![s, x]);
                near.push(vec![n]);
                near.push(vec![n + 1]);
                joined.push(Q::Match(m, n));
                joined.push(Q::Match(m + 1, n + 1));
            }
        }
    }
    let signs: Vec<String> = ["==", "!=", "<", "<=", ">", ">=", "=", "~=", "eq", "NE", " lt ", "ge", "x", "startswith", "!=startswith"].iter().map(|s| s.to_string()).collect();
    let mut docs: Vec<String> = vec![];
    while docs.len() < 12 {
        let d = crate::repo::document(c, &mut r, crate::repo::Harm::None);
        if d.len() < 20_000 {
            if r.chance(40) {
                let mut e: Vec<char> = d.chars().collect();
                // same length, one digit different
                let at: Vec<usize> = (0..e.len()).filter(|i| e[*i].is_ascii_digit()).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    e[i] = if e[i] == '1' { '2' } else { '1' };
                    docs.push(e.into_iter().collect());
                }
            }
            docs.push(d);
        }
    }
    let mut qs = vec![];
    for _ in 0..n {
        let (i, j) = (r.below(versions.len()), r.below(versions.len()));
        if !joined.is_empty() && r.chance(8) {
            let q = r.pick(&joined).clone();
            qs.push(q);
            continue;
        }
        qs.push(match r.below(40) {
            0..=14 => {
                // neighbours more often than strangers
                let j = if r.chance(70) { (i + r.below(12)) % versions.len() } else { j };
                Q::Cmp(i, j)
            }
            15..=28 => {
                let s = r.below(specs.len());
                Q::Match(s, if r.chance(65) { *r.pick(&near[s]) } else { i })
            }
            29..=32 => Q::Parse(i),
            33..=36 => Q::Tree(r.below(specs.len())),
            37..=38 => Q::Op(r.below(signs.len())),
            _ if r.chance(50) => Q::Read(r.below(docs.len())),
            _ => Q::Rewrite(r.below(docs.len())),
        });
    }
    World { versions, specs, signs, docs, qs, dir: String::new() }
}

fn summary(path: &str) -> String {
    match read_repodata(path) {
        Ok(d) => {
            let mut v: Vec<String> = d.packages.iter().chain(d.packages_conda.iter()).map(|(k, r)| format!("{:?} {:?}", k, r)).collect();
            v.sort();
            format!("{} {} {:?} {:?}", d.info.subdir, d.repodata_version, d.removed, v)
        }
        Err(_) => "refused".into(),
    }
}

struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
struct Probe<T>(PhantomData<T>);
trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShareable for Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

/// refusals are answers too, with what they say
type Objs = (Vec<Result<Version, String>>, Vec<Result<VersionSpecOrConstraintTree, String>>);

fn version(s: &str) -> Result<Version, String> {
    s.parse::<Version>().map_err(|e| format!("refused: {} {:?}", e, e))
}

fn tree(s: &str) -> Result<VersionSpecOrConstraintTree, String> {
    VersionSpecOrConstraintTree::try_from(s).map_err(|e| format!("refused: {} {:?}", e, e))
}

fn objects(w: &World) -> Objs {
    (w.versions.iter().map(|s| version(s)).collect(), w.specs.iter().map(|s| tree(s)).collect())
}

fn bits(a: &Version, b: &Version) -> String {
    let mut s = format!("{:?}{:?}", a.compare_version(b), a.partial_cmp(b));
    for o in OPS.iter() {
        s.push(if a.compare_to_version(b, o) { '1' } else { '0' });
    }
    s.push(if a.startswith(b) { 'p' } else { '-' });
    s
}

/// the answer to a query; from the given objects, or from fresh ones
fn answer(w: &World, q: &Q, objs: Option<&Objs>) -> String {
    // the given object, or one made now
    let ver = |i: usize| -> Result<Version, String> { version(&w.versions[i]) };
    let spec = |i: usize| -> Result<VersionSpecOrConstraintTree, String> { tree(&w.specs[i]) };
    let compared = |a: &Result<Version, String>, b: &Result<Version, String>| match (a, b) {
        (Ok(a), Ok(b)) => bits(a, b),
        (Err(e), _) | (_, Err(e)) => e.clone(),
    };
    let matched = |a: &Result<VersionSpecOrConstraintTree, String>, b: &Result<Version, String>| match (a, b) {
        (Ok(a), Ok(b)) => format!("{}{}", a.test_match_version(b), a.is_exact()),
        (Err(e), _) | (_, Err(e)) => e.clone(),
    };
    let parsed = |v: &Result<Version, String>| match v {
        Ok(v) => format!("{} {:?} {}", v, v, v.part_count()),
        Err(e) => e.clone(),
    };
    let written = |x: &Result<VersionSpecOrConstraintTree, String>| match x {
        Ok(x) => format!("{:?}", untreeify(x)),
        Err(e) => e.clone(),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match q {
        Q::Cmp(i, j) => match objs {
            Some(o) => compared(&o.0[*i], &o.0[*j]),
            None => compared(&ver(*i), &ver(*j)),
        },
        Q::Match(s, i) => match objs {
            Some(o) => matched(&o.1[*s], &o.0[*i]),
            None => matched(&spec(*s), &ver(*i)),
        },
        Q::Parse(i) => match objs {
            Some(o) => {
                // beside it, a new one is made
                let _ = ver(*i);
                parsed(&o.0[*i])
            }
            None => parsed(&ver(*i)),
        },
        Q::Tree(s) => match objs {
            Some(o) => written(&o.1[*s]),
            None => written(&spec(*s)),
        },
        Q::Read(k) => summary(&format!("{}/{}.json", w.dir, k)),
        Q::Rewrite(k) => {
            let p = format!("{}/{:?}.json", w.dir, std::thread::current().id());
            match std::fs::write(&p, &w.docs[*k]) {
                Ok(_) => summary(&p),
                Err(e) => {
                    eprintln!("cannot write {}: {}", p, e);
                    std::process::exit(3)
                }
            }
        }
        Q::Op(i) => format!("{:?} {:?}", CompOp::from_sign(&w.signs[*i]), CompOp::from_name(&w.signs[*i])),
    }));
    r.unwrap_or_else(|_| "panicked".into())
}

fn show(w: &World, q: &Q) -> String {
    match q {
        Q::Cmp(i, j) => format!("compare {:?} with {:?}", w.versions[*i], w.versions[*j]),
        Q::Match(s, i) => format!("match {:?} on {:?}", w.specs[*s], w.versions[*i]),
        Q::Parse(i) => format!("parse {:?}", w.versions[*i]),
        Q::Tree(s) => format!("tree of {:?}", w.specs[*s]),
        Q::Op(i) => format!("operator {:?}", w.signs[*i]),
        Q::Read(k) => format!("read file {}", k),
        Q::Rewrite(k) => format!("read text {} where another was", k),
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn main(seed: u64, queries: u64, order: u64, threads: u64, repo: &str, one: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let c = if repo.is_empty() { Ctx::mini() } else { Ctx::load(repo) };
    let mut w = world(seed, queries, &c);
    w.dir = crate::mk_scratch();
    for (k, d) in w.docs.iter().enumerate() {
        std::fs::write(format!("{}/{}.json", w.dir, k), d).expect("scratch");
    }
    let code = asked(Arc::new(w.clone()), seed, order, threads, one);
    std::fs::remove_dir_all(&w.dir).ok();
    code
}

fn asked(w: Arc<World>, seed: u64, order: u64, threads: u64, one: &str) -> i32 {
    let n = w.qs.len();
    if !one.is_empty() {
        // these queries and nothing before them
        let mut out = vec![];
        for t in one.split(',') {
            let i: usize = t.parse().unwrap_or(0);
            out.push(serde_json::json!([i, answer(&w, &w.qs[i % n], None), show(&w, &w.qs[i % n])]));
        }
        println!("{}", serde_json::json!({"answers": out}));
        return 0;
    }
    let threads = threads.max(1) as usize;
    let can_share = Probe::<Version>(PhantomData).shareable() && Probe::<VersionSpecOrConstraintTree>(PhantomData).shareable();
    let share = can_share && order % 2 == 1;
    let barrier = Arc::new(Barrier::new(threads));
    // one log cell per executed operation: who was there at that moment
    let log: Arc<Vec<AtomicUsize>> = Arc::new((0..threads * n * 2).map(|_| AtomicUsize::new(usize::MAX)).collect());
    let objs: Arc<Mutex<Option<Arc<Shared<Objs>>>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    for t in 0..threads {
        let (w, barrier, log, objs) = (w.clone(), barrier.clone(), log.clone(), objs.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut r = Rng::new(&[seed, order, t as u64, 0x0DE]);
            let mut idx: Vec<usize> = (0..n).chain(0..n).collect();
            if order > 0 {
                r.shuffle(&mut idx);
            }
            let mut first: Vec<Option<String>> = vec![None; n];
            let mut bad: Option<serde_json::Value> = None;
            barrier.wait();
            let mine: Option<Arc<Shared<Objs>>> = if share {
                // whoever comes first builds the shared objects while others already ask
                let mut g = objs.lock().unwrap();
                if g.is_none() {
                    *g = Some(Arc::new(Shared(objects(&w))));
                }
                g.clone()
            } else {
                None
            };
            for i in idx {
                let at = NEXT.fetch_add(1, Relaxed);
                if at < log.len() {
                    log[at].store(t, Relaxed);
                }
                let use_shared = mine.is_some() && r.chance(70);
                let a = answer(&w, &w.qs[i], if use_shared { mine.as_ref().map(|m| &m.0) } else { None });
                match &first[i] {
                    None => first[i] = Some(a),
                    Some(f) if *f != a => {
                        if bad.is_none() {
                            bad = Some(serde_json::json!({"query": show(&w, &w.qs[i]), "index": i, "first": f, "later": a, "thread": t}));
                        }
                    }
                    _ => {}
                }
            }
            if order == 0 && threads == 1 {
                // some of them over and over, refusals above all
                let mut some: Vec<usize> = (0..n).filter(|i| !matches!(w.qs[*i], Q::Read(_) | Q::Rewrite(_))).collect();
                r.shuffle(&mut some);
                let refused = |i: &usize| first[*i].as_ref().map_or(false, |a| a.starts_with("refused"));
                let mut often: Vec<usize> = some.iter().copied().filter(|i| refused(i)).take(60).collect();
                often.extend(some.iter().copied().filter(|i| !refused(i)).take(60));
                for i in often {
                    for k in 0..300 {
                        let a = answer(&w, &w.qs[i], None);
                        if bad.is_none() && first[i].as_ref() != Some(&a) {
                            bad = Some(serde_json::json!({"query": show(&w, &w.qs[i]), "index": i, "first": first[i], "later": a, "thread": t, "times": k}));
                        }
                    }
                }
            }
            (first, bad)
        }).unwrap());
    }
    let mut all: Vec<Vec<Option<String>>> = vec![];
    let mut bad = None;
    for h in hs {
        let (f, b) = h.join().unwrap();
        all.push(f);
        if bad.is_none() {
            bad = b;
        }
    }
    for t in 1..all.len() {
        for i in 0..n {
            if bad.is_none() && all[t][i] != all[0][i] {
                bad = Some(serde_json::json!({"query": show(&w, &w.qs[i]), "index": i, "first": all[0][i], "later": all[t][i], "thread": t}));
            }
        }
    }
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut switches = 0u64;
    let mut prev = usize::MAX;
    for x in log.iter() {
        let t = x.load(Relaxed);
        if t != prev && prev != usize::MAX && t != usize::MAX {
            switches += 1;
        }
        prev = t;
        h = (h ^ t as u64).wrapping_mul(0x1000_0000_01b3);
    }
    let kinds = w.qs.iter().fold([0u64; 7], |mut k, q| {
        k[match q { Q::Cmp(..) => 0, Q::Match(..) => 1, Q::Parse(_) => 2, Q::Tree(_) => 3, Q::Op(_) => 4, Q::Read(_) => 5, Q::Rewrite(_) => 6 }] += 1;
        k
    });
    println!("{}", serde_json::json!({"answers": all[0].iter().enumerate().map(|(i, a)| serde_json::json!([i, a, show(&w, &w.qs[i])])).collect::<Vec<_>>(), "bad": bad, "operations": threads * n * 2, "schedule": format!("{:016x}", h), "switches": switches, "shared_objects": share, "kinds": kinds}));
    0
}
