mod gen;
mod model;
mod props;
#[cfg(not(mon_one_thread))]
mod purity;
mod repo;
mod side;
mod watch;

use gen::*;
use props::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOCATOR: side::Counting = side::Counting;

pub struct Spec {
    pub gen: fn(&Ctx, &mut Rng) -> Case,
    /// deterministic cases run before the random ones
    fixed: fn(&Ctx, u64, bool) -> Vec<Case>,
    pub eval: fn(&Case, &mut Obs) -> Verdict,
    quick: u64,
    thorough: u64,
    /// observations without which a run has seen nothing and decides nothing
    need: &'static [&'static str],
    rule: &'static str,
}

fn no_fixed(_: &Ctx, _: u64, _: bool) -> Vec<Case> {
    vec![]
}
fn worlds(_: &Ctx, _: u64, t: bool) -> Vec<Case> {
    small_worlds(t).into_iter().map(|a| Case::new("world", a)).collect()
}

/// all pairs inside blocks of the enumerated worlds, for oracles that judge pairs
fn world_blocks(_: &Ctx, _: u64, t: bool) -> Vec<Case> {
    let mut out = vec![];
    for w in small_worlds(t) {
        // rows against columns, 90 x 90
        let chunks: Vec<&[String]> = w.chunks(90).collect();
        for i in 0..chunks.len() {
            for j in i..chunks.len() {
                let mut a = chunks[i].to_vec();
                if i != j {
                    a.extend_from_slice(chunks[j]);
                }
                out.push(Case::new("world", a));
            }
        }
    }
    out
}

fn real_pairs(c: &Ctx, _: u64, _: bool) -> Vec<Case> {
    c.real_versions.chunks(40).map(|a| Case::new("world", a.to_vec())).collect()
}

pub fn spec(id: &str) -> Option<Spec> {
    Some(match id {
        "C01" => Spec {
            gen: |c, r| gen_family(c, r, 26),
            fixed: |c, s, t| {
                let mut v = worlds(c, s, t);
                v.push(Case::new("world", c.real_versions.clone()));
                v
            },
            eval: eval_order,
            quick: 600_000,
            thorough: 12_000_000,
            need: &["less", "equal", "greater"],
            rule: "a case is a family of versions (enumerated small worlds, the test index's versions, random bases with mutated relatives); every ordered pair is compared; non-trivial when some pairs tie and some do not; distinct by the texts",
        },
        "C02" => Spec {
            gen: |c, r| {
                let o = Opt { uni: if r.chance(85) { Uni::Ascii } else { Uni::Safe }, ..PLAIN };
                gen_pair(c, r, o)
            },
            fixed: |c, s, t| {
                let mut v = world_blocks(c, s, t);
                v.extend(real_pairs(c, s, t));
                v
            },
            eval: eval_model,
            quick: 4_000_000,
            thorough: 80_000_000,
            need: &["less", "equal", "greater"],
            rule: "a case is a pair of versions (or a block of an enumerated world, all pairs) judged against the reference model; non-trivial when the texts differ; distinct by the texts",
        },
        "C03" => Spec {
            gen: gen_agree,
            fixed: |c, _, _| c.real_versions.windows(2).map(|w| Case::new("pair", w.to_vec())).collect(),
            eval: eval_agree,
            quick: 2_000_000,
            thorough: 40_000_000,
            need: &["less", "equal", "greater", "prefix", "not_prefix", "operator_true", "operator_false", "assembled_by_caller"],
            rule: "a case is a pair of versions put through every comparison entry point and all ten operators; non-trivial when the texts differ; distinct by the texts",
        },
        "C04" => Spec {
            gen: gen_op,
            fixed: |c, _, t| enum_ops(c, t),
            eval: eval_ops,
            quick: 2_000_000,
            thorough: 40_000_000,
            need: &["operators", "recognised", "refused"],
            rule: "a case is an operator, or a text to recognise as a sign or name (all short texts over the sign and name letters, edited and blank-padded ones); non-trivial when recognised or sharing letters with a sign or name",
        },
        "C05" => Spec {
            gen: |c, r| if r.chance(12) { gen_custom(c, r) } else { gen_text(c, r) },
            fixed: |c, _, t| {
                let mut v: Vec<Case> = small_worlds(t).into_iter().flatten().map(|s| Case::new("text", vec![s])).collect();
                v.extend(c.real_versions.iter().map(|s| Case::new("text", vec![s.clone()])));
                v
            },
            eval: eval_text,
            quick: 4_000_000,
            thorough: 80_000_000,
            need: &["number", "text_part", "epoch", "local", "empty", "duplicate epoch", "duplicate local", "other", "custom_parser", "custom_error"],
            rule: "a case is a version text (or a caller's parser) whose components, text and errors are compared with an independent tokeniser; non-trivial with two or more components or an error",
        },
        "C06" => Spec {
            gen: gen_total,
            fixed: |_, _, t| enum_total(t),
            eval: eval_total,
            quick: 500_000,
            thorough: 10_000_000,
            need: &["versions_accepted", "versions_refused", "specs_accepted", "specs_refused", "repodata_refused", "trees_accepted", "trees_refused", "nested_specs"],
            rule: "a case is any text given to a fallible entry point, and everything that is accepted is then used in every way; non-trivial unless nothing was accepted; distinct by the texts",
        },
        "C07" => Spec {
            gen: gen_prefix,
            fixed: |_, _, t| world_blocks(&Ctx::mini(), 0, t).into_iter().step_by(if t { 1 } else { 3 }).collect(),
            eval: eval_prefix,
            quick: 5_000_000,
            thorough: 100_000_000,
            need: &["prefix", "not_prefix", "near_miss", "itself", "assembled_by_caller"],
            rule: "a case is a pair (or block) of versions judged by component-wise prefix over the reference tokens; non-trivial when a prefix, or when the first component agrees",
        },
        "C08" => Spec {
            gen: gen_spec,
            fixed: no_fixed,
            eval: eval_spec,
            quick: 2_500_000,
            thorough: 50_000_000,
            need: &["matches", "rejections", "form bare", "form ==", "form !=", "form <", "form <=", "form >", "form >=", "form =", "form V*", "form V.*", "form =V.*", "form !=V.*", "form ~=", "form *", "form @"],
            rule: "a case is one single spec and several versions near its bound; non-trivial when it matches some and rejects some; distinct by the texts",
        },
        "C09" => Spec {
            gen: gen_compound,
            fixed: no_fixed,
            eval: eval_compound,
            quick: 250_000,
            thorough: 5_000_000,
            need: &["matches", "rejections", "assembled_matches", "assembled_rejections", "empty_parts", "specs_of_2_to_4_leaves", "specs_of_5_to_16_leaves", "specs_of_17_or_more_leaves"],
            rule: "a case is a random and/or tree written out as text and several versions; non-trivial when its parts disagree on some version; distinct by the texts",
        },
        "C10" => Spec {
            gen: gen_tokens,
            fixed: |_, _, t| enum_tokens(t),
            eval: eval_tokens,
            quick: 600_000,
            thorough: 12_000_000,
            need: &["well_formed", "malformed", "bad_leaf_refused"],
            rule: "a case is a token sequence (all up to the bound, and edited well-formed ones) judged by an own recogniser; non-trivial with more than one token",
        },
        "C11" => Spec {
            gen: gen_tree,
            fixed: no_fixed,
            eval: eval_tree,
            quick: 150_000,
            thorough: 3_000_000,
            need: &["and_at_top", "or_at_top", "single"],
            rule: "a case is a random and/or tree as text; its parsed structure, its written form and the re-read form are compared with the canonical tree; non-trivial when not a single spec",
        },
        "C12" => Spec {
            gen: gen_pattern,
            fixed: no_fixed,
            eval: eval_pattern,
            quick: 800_000,
            thorough: 16_000_000,
            need: &["glob_matches", "glob_rejections", "regex_matches", "regex_rejections"],
            rule: "a case is a glob or a regular expression (as syntax tree) with texts derived from it, judged by own matchers; non-trivial when it matches some and rejects some",
        },
        "C13" => Spec {
            gen: gen_compat,
            fixed: |_, _, _| enum_compat(),
            eval: eval_compat,
            quick: 2_500_000,
            thorough: 50_000_000,
            need: &["compatible", "incompatible"],
            rule: "a case is a release and several versions around its series, judged by the reference model; non-trivial when some are compatible and some are not",
        },
        "C14" => Spec {
            gen: repo::gen_doc,
            fixed: |_, _, t| {
                let mut v = vec![Case::new("real", vec![])];
                for n in [1 << 16, 1 << 20, 1 << 22, 1 << 24, 1 << 25, 1 << 26] {
                    v.push(Case::new("padded", vec![(n + 1).to_string()]));
                }
                for n in [2_000, 70_000].into_iter().chain(if t { Some(300_000) } else { None }) {
                    v.push(Case::new("many", vec![n.to_string()]));
                }
                v
            },
            eval: repo::eval_repo,
            quick: 200_000,
            thorough: 4_000_000,
            need: &["accepted", "records_compared"],
            rule: "a case is a generated index file (key order, blanks, escapes, unknown fields, extreme numbers vary) read back and compared field by field; non-trivial with at least one record",
        },
        "C15" => Spec {
            gen: repo::gen_damage,
            fixed: repo::enum_damage,
            eval: repo::eval_repo,
            quick: 250_000,
            thorough: 5_000_000,
            need: &["refused", "accepted", "path_refused"],
            rule: "a case is an index file cut, flipped, holed, extended, or with a field missing or of the wrong type or range; every prefix of some files; non-trivial when the oracle decided on at least one record or a refusal",
        },
        "C19" => Spec {
            gen: gen_equal,
            fixed: no_fixed,
            eval: eval_equal,
            quick: 400_000,
            thorough: 8_000_000,
            need: &["equal", "unequal", "matches_compared"],
            rule: "a case is two specs or trees, equal or one edit apart, compared, copied and matched; distinct by structure",
        },
        "C20" => Spec {
            gen: gen_spelling,
            fixed: no_fixed,
            eval: eval_spelling,
            quick: 4_000_000,
            thorough: 80_000_000,
            need: &["spellings_compared", "less", "greater"],
            rule: "a case is a version, other spellings of it (separators, leading zeros, letter case, separators between digits and letters, trailing zeros) and an outsider; non-trivial when some spelling differs",
        },
        "C21" => Spec {
            gen: gen_range,
            fixed: |c, _, _| c.real_versions.chunks(30).map(|w| Case::new("range", w.to_vec())).collect(),
            eval: eval_range,
            quick: 500_000,
            thorough: 10_000_000,
            need: &["selected", "left_out", "ranges"],
            rule: "a case is a family of versions sorted by the library and range specs over two of them; non-trivial when a bound separates the family",
        },
        "C22" => Spec {
            gen: gen_places,
            fixed: |c, _, _| c.real_versions.windows(2).map(|w| Case::new("pair", w.to_vec())).collect(),
            eval: eval_places,
            quick: 1_200_000,
            thorough: 24_000_000,
            need: &["decided_by_a_place", "decided_by_missing_places", "equal", "assembled_by_caller", "components_ranked"],
            rule: "a case is a family of versions (texts, or assembled by a caller's parser) whose order is recomputed from their public components, and whose components are ranked; non-trivial when two differ",
        },
        "C23" => Spec {
            gen: side::gen_balance,
            fixed: side::enum_balance,
            eval: side::eval_balance,
            quick: 60_000,
            thorough: 2_000_000,
            need: &["repeated_cases", "allocations_watched", "streamed_cases", "calls of C05", "calls of C06", "calls of C08", "calls of C09", "calls of C14", "calls of C15"],
            rule: "a case is a case of another property repeated seven times while memory, files and threads in use are counted, or a long stream of new ones; non-trivial when memory was allocated",
        },
        "C24" => Spec {
            gen: side::gen_quiet,
            fixed: no_fixed,
            eval: side::eval_quiet,
            quick: 60_000,
            thorough: 1_000_000,
            need: &["watched_cases", "opens_watched", "calls of C05", "calls of C06", "calls of C08", "calls of C09", "calls of C14", "calls of C15"],
            rule: "a case is a case of another property run while output, files, environment and working directory are watched, with every call to the C library that changes one of them",
        },
        _ => return None,
    })
}

pub const RANDOMIZED: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20", "C21", "C22"];

pub fn hash_case(c: &Case) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut eat = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 31;
    };
    eat(c.kind.as_bytes());
    for a in &c.a {
        eat(a.as_bytes());
    }
    h
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        if msg.contains("unsafe precondition") {
            eprintln!("{} at {}", msg, loc);
        }
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub enum Guarded {
    V(Verdict),
    HarnessPanic(String),
}

/// evaluate, turning a panic of the library into a violation and one of the harness into an error
pub fn guarded(f: impl FnOnce() -> Verdict) -> Guarded {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Guarded::V(v),
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            let msg: String = msg.chars().take(300).collect();
            if loc.starts_with("src/") || loc.contains("/verif/harness") {
                Guarded::HarnessPanic(format!("{} at {}", msg, loc))
            } else {
                Guarded::V(Verdict::Bad(format!("panicked: {} (at {})", msg, loc)))
            }
        }
    }
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct Report {
    evals: u64,
    nontrivial: u64,
    trivial: u64,
    skipped: u64,
    n: BTreeMap<String, u64>,
    samples: Vec<Case>,
    bad: Option<(u64, Case, String)>,
    harness: Option<String>,
    hashes: String,
    complete: bool,
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or(0)
    }
}

/// the idx-th case of a shard; fixed cases come first, dealt round robin
struct Source {
    sp: Spec,
    ctx: Ctx,
    fixed: Vec<Case>,
    seed: u64,
    pid: u64,
    shards: u64,
    random: u64,
}
impl Source {
    fn new(id: &str, seed: u64, thorough: bool, shards: u64, ctx: Ctx, scale: u64) -> Source {
        let sp = spec(id).expect("property");
        let fixed = (sp.fixed)(&ctx, seed, thorough);
        let total = if thorough { sp.thorough } else { sp.quick };
        let random = total * scale / 1000;
        let pid = id.bytes().fold(0u64, |h, b| h * 131 + b as u64);
        Source { sp, ctx, fixed, seed, pid, shards, random }
    }
    fn len(&self) -> u64 {
        self.fixed.len() as u64 + self.random
    }
    fn case(&self, g: u64) -> Case {
        if g < self.fixed.len() as u64 {
            self.fixed[g as usize].clone()
        } else {
            let mut r = Rng::new(&[self.seed, self.pid, g]);
            (self.sp.gen)(&self.ctx, &mut r)
        }
    }
}

fn worker(a: &Args) -> i32 {
    install_hook();
    let id = a.get("id");
    let (shard, shards) = (a.num("shard"), a.num("shards"));
    let ctx = Ctx::load(a.get("repo"));
    let src = Source::new(id, a.num("seed"), a.get("tier") == "thorough", shards, ctx, a.num("scale"));
    let journal = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(a.get("journal")).expect("journal");
    let scratch = a.get("scratch").to_string();
    let mut obs = Obs { scratch, ctx: Some(Ctx::load(a.get("repo"))), ..Obs::default() };
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let start = Instant::now();
    let limit = Duration::from_secs(a.num("seconds"));
    rep.complete = true;
    let mut g = shard;
    while g < src.len() {
        if (g / shards) % 64 == 0 && start.elapsed() > limit {
            rep.complete = false;
            break;
        }
        journal.write_at(&(g + 1).to_le_bytes(), 0).ok();
        let case = match guarded_gen(|| src.case(g)) {
            Ok(c) => c,
            Err(e) => {
                rep.harness = Some(format!("generating case {}: {}", g, e));
                break;
            }
        };
        rep.evals += 1;
        let t_case = Instant::now();
        let verdict = guarded(|| (src.sp.eval)(&case, &mut obs));
        let t_case = t_case.elapsed().as_millis() as u64;
        if t_case > obs.n.get("slowest_case_ms").copied().unwrap_or(0) {
            obs.n.insert("slowest_case_ms".into(), t_case);
            if t_case > 500 {
                eprintln!("slow: {} ms {} {}", t_case, g, serde_json::to_string(&case).unwrap_or_default().chars().take(300).collect::<String>());
            }
        }
        match verdict {
            Guarded::V(Verdict::Held) => {
                if seen.len() < 3_000_000 && seen.insert(hash_case(&case)) {
                    rep.nontrivial += 1;
                    if rep.samples.len() < 4 && g % 7 == 3 {
                        rep.samples.push(case);
                    }
                }
            }
            Guarded::V(Verdict::Trivial) => rep.trivial += 1,
            Guarded::V(Verdict::Skip) => rep.skipped += 1,
            Guarded::V(Verdict::Bad(m)) => {
                rep.bad = Some((g, case, m));
                break;
            }
            Guarded::HarnessPanic(m) => {
                rep.harness = Some(format!("case {}: {}", g, m));
                break;
            }
        }
        g += shards;
    }
    journal.write_at(&0u64.to_le_bytes(), 0).ok();
    rep.n = std::mem::take(&mut obs.n);
    let hp = format!("{}.hashes", a.get("out"));
    let mut b = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(&hp, b).ok();
    rep.hashes = hp;
    std::fs::write(a.get("out"), serde_json::to_string(&rep).unwrap()).expect("report");
    0
}

fn guarded_gen(f: impl FnOnce() -> Case) -> Result<Case, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let (l, m) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
        format!("{} at {}", m, l)
    })
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: f64 = f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

const HANG_CPU: f64 = 60.0;

#[derive(serde::Serialize, serde::Deserialize)]
struct Replay {
    property: String,
    message: String,
    seed: u64,
    tier: String,
    shards: u64,
    index: u64,
    case: Case,
    how: String,
}

/// what one case does in a fresh process
enum Alone {
    Held,
    Bad(String),
    Died(String),
    Error(String),
}

fn limit_cpu(c: &mut std::process::Command, seconds: u64) {
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: seconds, rlim_max: seconds + 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
}

fn run_alone(file: &str, repo: &str) -> Alone {
    let me = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(me);
    c.args(["case", "--file", file, "--repo", repo]);
    limit_cpu(&mut c, 90);
    match c.output() {
        Ok(o) => {
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            if let Some(s) = o.status.signal() {
                if err.contains("memory allocation of") || s == libc::SIGKILL {
                    return Alone::Error(format!("ended by signal {} (memory?)", s));
                }
                let what = if s == libc::SIGXCPU { "does not finish within 90 CPU seconds".to_string() } else { format!("kills the process (signal {}): {}", s, err.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("")) };
                return Alone::Died(what);
            }
            match o.status.code() {
                Some(0) => Alone::Held,
                Some(1) => Alone::Bad(out.trim().to_string()),
                x => Alone::Error(format!("exit {:?}: {} {}", x, out, err)),
            }
        }
        Err(e) => Alone::Error(e.to_string()),
    }
}

fn case_cmd(a: &Args) -> i32 {
    install_hook();
    let t = std::fs::read_to_string(a.get("file")).expect("replay file");
    let r: Replay = serde_json::from_str(&t).expect("replay");
    let sp = spec(&r.property).expect("property");
    let scratch = mk_scratch();
    let mut obs = Obs { scratch: scratch.clone(), ctx: Some(Ctx::load(a.get("repo"))), ..Obs::default() };
    let v = if r.case.kind == "big" { guarded(|| eval_big(&r.case)) } else { guarded(|| (sp.eval)(&r.case, &mut obs)) };
    let mut code = match v {
        Guarded::V(Verdict::Bad(m)) => {
            println!("{}", m);
            1
        }
        Guarded::HarnessPanic(m) => {
            println!("harness: {}", m);
            3
        }
        _ => 0,
    };
    if code == 0 && a.get("history") == "1" {
        // it depends on what ran before: run the whole shard up to the case
        let src = Source::new(&r.property, r.seed, r.tier == "thorough", r.shards, Ctx::load(a.get("repo")), 1000);
        let mut g = r.index % r.shards;
        while g <= r.index {
            if let Guarded::V(Verdict::Bad(m)) = guarded(|| (src.sp.eval)(&src.case(g), &mut obs)) {
                println!("case {} in its history: {}", g, m);
                code = 1;
                break;
            }
            g += r.shards;
        }
    }
    std::fs::remove_dir_all(&scratch).ok();
    code
}

fn shrink_cmd(a: &Args) -> i32 {
    install_hook();
    let t = std::fs::read_to_string(a.get("file")).expect("replay file");
    let r: Replay = serde_json::from_str(&t).expect("replay");
    let sp = spec(&r.property).expect("property");
    let scratch = a.get("scratch").to_string();
    let mut obs = Obs { scratch: scratch.clone(), ctx: Some(Ctx::load(a.get("repo"))), ..Obs::default() };
    let small = shrink(&sp, &r.case, &mut obs);
    let m = match guarded(|| (sp.eval)(&small, &mut obs)) {
        Guarded::V(Verdict::Bad(x)) if hash_case(&small) != hash_case(&r.case) => x,
        _ => r.message.clone(),
    };
    println!("{}", serde_json::to_string(&(small, m)).unwrap());
    0
}

fn mk_scratch() -> String {
    for i in 0..1000 {
        let d = format!("{}/ronda-mon-{}-{}", std::env::temp_dir().display(), std::process::id(), i);
        if std::fs::create_dir(&d).is_ok() {
            return d;
        }
    }
    panic!("no scratch directory")
}

/// shorten the texts of a failing case while it keeps failing in this process
fn shrink(sp: &Spec, case: &Case, obs: &mut Obs) -> Case {
    let mut best = case.clone();
    let mut tries = 0;
    let mut fails = |c: &Case| matches!(guarded(|| (sp.eval)(c, obs)), Guarded::V(Verdict::Bad(_)));
    if !fails(&best) {
        return best;
    }
    if matches!(best.kind.as_str(), "family" | "world" | "range") {
        let mut i = 0;
        while i < best.a.len() && best.a.len() > 2 && tries < 3000 {
            let mut c = best.clone();
            c.a.remove(i);
            tries += 1;
            if fails(&c) { best = c } else { i += 1 }
        }
    }
    if matches!(best.kind.as_str(), "family" | "world" | "range" | "pair" | "text" | "ver" | "spec" | "glob") {
        let mut progress = true;
        while progress && tries < 4000 {
            progress = false;
            // the first text of a spec case names its form
            for i in (if best.kind == "spec" { 1 } else { 0 })..best.a.len() {
                let mut len = best.a[i].chars().count() / 2;
                while len >= 1 {
                    let mut at = 0;
                    while at + len <= best.a[i].chars().count() && tries < 4000 {
                        let cs: Vec<char> = best.a[i].chars().collect();
                        let t: String = cs[..at].iter().chain(&cs[at + len..]).collect();
                        let mut c = best.clone();
                        c.a[i] = t;
                        tries += 1;
                        if fails(&c) {
                            best = c;
                            progress = true;
                        } else {
                            at += len;
                        }
                    }
                    len /= 2;
                }
            }
        }
    }
    best
}

fn run(a: &Args) -> i32 {
    let t0 = Instant::now();
    let id = a.get("id").to_string();
    let sp = match spec(&id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let (seed, tier) = (a.num("seed"), a.get("tier").to_string());
    let thorough = tier == "thorough";
    let shards = 8u64;
    let seconds = if thorough { 420 } else { 75 };
    let scale = if a.num("scale") > 0 { a.num("scale") } else { 1000 };
    let scratch = mk_scratch();
    let me = std::env::current_exe().unwrap();
    let replays = a.get("replays").to_string();
    std::fs::create_dir_all(&replays).ok();

    struct W {
        child: std::process::Child,
        out: String,
        journal: String,
        mark: (u64, f64),
        ended: Option<std::process::ExitStatus>,
        hung: bool,
    }
    let mut ws: Vec<W> = vec![];
    for s in 0..shards {
        let dir = format!("{}/w{}", scratch, s);
        std::fs::create_dir(&dir).unwrap();
        let (out, journal) = (format!("{}/report", dir), format!("{}/journal", dir));
        let err = std::fs::File::create(format!("{}/stderr", dir)).unwrap();
        let mut c = std::process::Command::new(&me);
        c.args(["worker", "--id", &id, "--seed", &seed.to_string(), "--tier", &tier, "--shard", &s.to_string(), "--shards", &shards.to_string()])
            .args(["--journal", &journal, "--out", &out, "--scratch", &dir, "--repo", a.get("repo"), "--seconds", &seconds.to_string(), "--scale", &scale.to_string()])
            .stdin(std::process::Stdio::null())
            .stderr(err);
        unsafe {
            c.pre_exec(|| {
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                Ok(())
            });
        }
        let child = c.spawn().expect("worker");
        ws.push(W { child, out, journal, mark: (u64::MAX, 0.0), ended: None, hung: false });
    }
    let read_journal = |p: &str| -> u64 { std::fs::read(p).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(0) };
    while ws.iter().any(|w| w.ended.is_none()) {
        std::thread::sleep(Duration::from_millis(30));
        let slow = t0.elapsed().as_secs() % 2 == 0;
        for w in ws.iter_mut().filter(|w| w.ended.is_none()) {
            if let Ok(Some(st)) = w.child.try_wait() {
                w.ended = Some(st);
                continue;
            }
            if slow {
                let g = read_journal(&w.journal);
                let cpu = cpu_seconds(w.child.id()).unwrap_or(0.0);
                if g != w.mark.0 {
                    w.mark = (g, cpu);
                } else if cpu - w.mark.1 > HANG_CPU {
                    w.hung = true;
                    w.child.kill().ok();
                }
            }
        }
    }

    let mut total = Report { complete: true, ..Report::default() };
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut violation: Option<(u64, Case, String)> = None;
    let mut errors: Vec<String> = vec![];
    let src = Source::new(&id, seed, thorough, shards, Ctx::load(a.get("repo")), scale);
    for w in &ws {
        let st = w.ended.unwrap();
        if st.success() && !w.hung {
            let r: Report = match std::fs::read_to_string(&w.out).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(r) => r,
                None => {
                    errors.push("a worker left no report".into());
                    continue;
                }
            };
            total.evals += r.evals;
            total.trivial += r.trivial;
            total.skipped += r.skipped;
            total.complete &= r.complete;
            for (k, v) in r.n {
                let e = total.n.entry(k.clone()).or_insert(0);
                *e = if k == "slowest_case_ms" { v.max(*e) } else { *e + v };
            }
            if let Ok(t) = std::fs::read_to_string(format!("{}/stderr", w.out.trim_end_matches("/report"))) {
                t.lines().filter(|l| l.starts_with("slow:")).for_each(|l| eprintln!("{}", l));
            }
            total.samples.extend(r.samples);
            if let Ok(b) = std::fs::read(&r.hashes) {
                for c in b.chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            if let Some(h) = r.harness {
                errors.push(h);
            }
            if let Some(b) = r.bad {
                if violation.as_ref().map_or(true, |v| b.0 < v.0) {
                    violation = Some(b);
                }
            }
        } else {
            // killed: find the case, and see whether it does that again on its own
            if violation.is_some() {
                continue;
            }
            let g = read_journal(&w.journal);
            let err = std::fs::read_to_string(format!("{}/stderr", w.out.trim_end_matches("/report"))).unwrap_or_default();
            let why = if w.hung { "no progress on one case".to_string() } else { format!("{:?} {}", st, err.lines().last().unwrap_or("")) };
            if g == 0 {
                errors.push(format!("a worker died outside any case: {}", why));
                continue;
            }
            let case = match guarded_gen(|| src.case(g - 1)) {
                Ok(c) => c,
                Err(e) => {
                    errors.push(e);
                    continue;
                }
            };
            let f = format!("{}/crash-{}", scratch, g);
            let rp = Replay { property: id.clone(), message: why.clone(), seed, tier: tier.clone(), shards, index: g - 1, case: case.clone(), how: String::new() };
            std::fs::write(&f, serde_json::to_string(&rp).unwrap()).ok();
            match run_alone(&f, a.get("repo")) {
                Alone::Bad(m) | Alone::Died(m) => violation = Some((g - 1, case, m)),
                Alone::Held => errors.push(format!("a worker died on case {} ({}), which does not repeat alone", g - 1, why)),
                Alone::Error(e) => errors.push(format!("a worker died on case {} ({}): {}", g - 1, why, e)),
            }
        }
    }

    // known findings: listed inputs, checked one by one
    let mut known_lines = vec![];
    let known: Vec<serde_json::Value> = std::fs::read_to_string(a.get("known")).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    if id == "C02" {
        install_hook();
        for (x, y) in [("9223372036854775808", "1"), ("1.9223372036854775808", "1.9223372036854775807"), ("1.99999999999999999999", "1.2")] {
            let case = Case::new("big", vec![x.into(), y.into()]);
            total.evals += 1;
            if let Guarded::V(Verdict::Bad(m)) = guarded(|| eval_big(&case)) {
                let listed = known.iter().any(|k| k["status"] == "known" && k["property"] == "C02" && k["case"] == serde_json::json!([x, y]));
                if listed {
                    known_lines.push(format!("KNOWN-FINDING: property=C02 {}", m));
                } else if violation.is_none() {
                    violation = Some((0, case, m));
                }
            }
        }
    }

    let mut code = 0;
    if let Some((g, case, m)) = &violation {
        // shortening runs in a process of its own: a shortened case may hang or kill it
        let (mut small, mut m2) = (case.clone(), m.clone());
        if !(m.contains("kills the process") || m.contains("CPU seconds") || case.kind == "big") {
            let f = format!("{}/shrink", scratch);
            let rp = Replay { property: id.clone(), message: m.clone(), seed, tier: tier.clone(), shards, index: *g, case: case.clone(), how: String::new() };
            std::fs::write(&f, serde_json::to_string(&rp).unwrap()).ok();
            let mut c = std::process::Command::new(&me);
            c.args(["shrink", "--file", &f, "--scratch", &scratch, "--repo", a.get("repo")]).stderr(std::process::Stdio::null());
            limit_cpu(&mut c, 60);
            if let Ok(o) = c.output() {
                if let (true, Ok((c, x))) = (o.status.success(), serde_json::from_slice::<(Case, String)>(&o.stdout)) {
                    small = c;
                    m2 = x;
                }
            }
        }
        let path = format!("{}/{}-{:016x}.json", replays, id, hash_case(&small));
        let rp = Replay { property: id.clone(), message: m2.clone(), seed, tier: tier.clone(), shards, index: *g, case: small, how: format!("python3 /verif/check.py replay {}", path) };
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).ok();
        println!("{}", m2);
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("inconclusive: {}", e);
        }
        code = 2;
    } else {
        for k in sp.need {
            if total.n.get(*k).copied().unwrap_or(0) == 0 {
                eprintln!("inconclusive: the run never observed {:?}", k);
                code = 2;
            }
        }
        if distinct.len() < 1000.min(total.evals as usize / 20) || distinct.is_empty() {
            eprintln!("inconclusive: only {} distinct non-trivial cases", distinct.len());
            code = 2;
        }
    }
    for l in &known_lines {
        println!("{}", l);
    }
    total.samples.truncate(5);
    let samples: Vec<serde_json::Value> = total
        .samples
        .iter()
        .map(|c| serde_json::json!({"kind": c.kind, "args": c.a.iter().take(8).map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>()}))
        .collect();
    let mut samples = samples;
    if samples.is_empty() {
        samples.push(serde_json::json!({"kind": src.case(0).kind, "args": src.case(0).a.iter().take(8).map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>()}));
    }
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": if id == "C15" { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": total.evals, "distinct_nontrivial": distinct.len(), "trivial": total.trivial, "outside_the_property": total.skipped,
            "rule": sp.rule, "samples": samples, "observed": total.n, "planned_cases": src.len(), "enumerated_cases": src.fixed.len(), "ran_to_plan": total.complete && violation.is_none(),
            "workers": shards, "inconclusive": errors, "known_findings_seen": known_lines.len(),
        },
        "assumptions": ["held on the executions counted here, nothing beyond"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if violation.is_some() { 1 } else { 0 },
    });
    std::fs::write(a.get("evidence"), serde_json::to_string_pretty(&ev).unwrap() + "\n").ok();
    std::fs::remove_dir_all(&scratch).ok();
    if code == 0 {
        println!("{} held on {} evaluations, {} distinct non-trivial ({:.1} s)", id, total.evals, distinct.len(), t0.elapsed().as_secs_f64());
    }
    code
}

/// the monitors' workloads in one process, for sanitizer builds: verdicts do not matter here
fn soak(a: &Args) -> i32 {
    install_hook();
    props::BIG_STACK.store(true, std::sync::atomic::Ordering::Relaxed);
    let ctx = || if a.get("repo").is_empty() { Ctx::mini() } else { Ctx::load(a.get("repo")) };
    let scratch = if a.get("scratch").is_empty() { mk_scratch() } else { a.get("scratch").to_string() };
    let mut obs = Obs { scratch: scratch.clone(), ctx: Some(ctx()), ..Obs::default() };
    let c = ctx();
    let seconds = if a.num("seconds") > 0 { a.num("seconds") } else { 100_000 };
    let per = a.num("per");
    let seed = a.num("seed");
    let only = a.get("only").to_string();
    let mut total = 0u64;
    let mut seen = HashSet::new();
    // no serde_json here: this also runs under Miri, and writing numbers with it is a known flaw of old itoa
    let report = |total: u64, seen: usize, obs: &Obs| {
        println!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"texts_validated\": {}}}", total, seen, obs.n.get("texts_validated").copied().unwrap_or(0));
    };
    report(0, 0, &obs);
    let mut last = Instant::now();
    let maxlen = if a.num("maxlen") > 0 { a.num("maxlen") as usize } else { usize::MAX };
    for id in RANDOMIZED {
        if !only.is_empty() && !only.split(',').any(|x| x == *id) {
            continue;
        }
        let sp = spec(id).unwrap();
        let pid = id.bytes().fold(0u64, |h, b| h * 131 + b as u64);
        let mut done = 0;
        let mut i = 0u64;
        let start = Instant::now();
        let ids = if only.is_empty() { RANDOMIZED.len() } else { only.split(',').count() };
        let limit = Duration::from_millis(seconds * 1000 / ids as u64);
        while done < per && i < per * 40 && start.elapsed() < limit {
            let mut r = Rng::new(&[seed, pid, 77, a.num("shard"), i]);
            i += 1;
            let case = match guarded_gen(|| (sp.gen)(&c, &mut r)) {
                Ok(c) => c,
                Err(_) => continue,
            };
            if case.a.iter().map(|s| s.len()).sum::<usize>() > maxlen || (maxlen < usize::MAX && case.kind == "nest") {
                continue;
            }
            done += 1;
            total += 1;
            if let Guarded::V(Verdict::Held) = guarded(|| (sp.eval)(&case, &mut obs)) {
                seen.insert(hash_case(&case));
            }
            if let Err(e) = guarded_text(&case, &mut obs) {
                println!("INVALID-TEXT {}", e);
                return 1;
            }
            if last.elapsed() > Duration::from_secs(10) {
                report(total, seen.len(), &obs);
                last = Instant::now();
            }
        }
    }
    if a.get("scratch").is_empty() {
        std::fs::remove_dir_all(&scratch).ok();
    }
    report(total, seen.len(), &obs);
    0
}

/// every text the library hands out must be valid UTF-8, byte by byte
fn guarded_text(case: &Case, obs: &mut Obs) -> Result<(), String> {
    fn valid(what: &str, of: &str, s: &str) -> Result<(), String> {
        let bytes: Vec<u8> = s.as_bytes().iter().map(|b| std::hint::black_box(*b)).collect();
        std::str::from_utf8(&bytes).map(|_| ()).map_err(|e| format!("{} of {:?} is not UTF-8: {}", what, of, e))
    }
    let mut out = Ok(());
    let mut n = 0;
    for t in &case.a {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
            use ronda::verif_hooks::Spec as _;
            use std::convert::TryFrom;
            match t.parse::<ronda::Version>() {
                Ok(v) => {
                    valid("text", t, v.as_str())?;
                    valid("display form", t, &v.to_string())?;
                    for p in v.parts() {
                        valid("a component", t, &format!("{} {:?}", p, p))?;
                    }
                }
                Err(e) => valid("the error", t, &format!("{} {:?}", e, e))?,
            }
            match ronda::VersionSpecOrConstraintTree::try_from(t.as_str()) {
                Ok(x) => {
                    valid("the spec", t, &x.get_spec())?;
                    valid("the written form", t, &ronda::untreeify(&x).unwrap_or_default())?;
                    valid("the debug form", t, &format!("{:?}", x))?;
                }
                Err(e) => valid("the error", t, &format!("{} {:?}", e, e))?,
            }
            Ok(())
        }));
        n += 1;
        if let Ok(Err(e)) = r {
            out = Err(e);
            break;
        }
    }
    obs.add("texts_validated", n);
    out
}

/// reference answers of the Rust core for the Python binding
fn oracle(a: &Args) -> i32 {
    install_hook();
    let c = Ctx::load(a.get("repo"));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for i in 0..a.num("count") {
        let mut r = Rng::new(&[a.num("seed"), 0xC18, i]);
        let mut vs = cluster(&mut r, &c, if i % 3 == 0 { ANY } else { PLAIN }, 6);
        if i % 4 == 0 {
            vs.push(junk(&mut r, &c));
            vs.push(format!("{}!1!2", i));
        }
        let got = guarded_val(|| {
            let mut rows = vec![];
            for s in &vs {
                rows.push(serde_json::json!({"s": s, "ok": s.parse::<ronda::Version>().is_ok()}));
            }
            let ok: Vec<(usize, ronda::Version)> = vs.iter().enumerate().filter_map(|(i, s)| s.parse().ok().map(|v| (i, v))).collect();
            let mut pairs = vec![];
            for (i, x) in &ok {
                for (j, y) in &ok {
                    let bits: Vec<bool> = OPS[..6].iter().map(|o| x.compare_to_version(y, o)).collect();
                    pairs.push(serde_json::json!([i, j, bits, x.startswith(y)]));
                }
            }
            serde_json::json!({"versions": rows, "pairs": pairs})
        });
        match got {
            Some(v) => {
                writeln!(out, "{}", v).ok();
            }
            None => {
                writeln!(out, "null").ok();
            }
        }
    }
    0
}

fn guarded_val<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    while let Some(k) = it.next() {
        if let Some(v) = it.next() {
            m.insert(k.trim_start_matches("--").to_string(), v);
        }
    }
    let a = Args(m);
    let code = match cmd.as_str() {
        "run" => run(&a),
        "worker" => worker(&a),
        "case" => case_cmd(&a),
        "shrink" => shrink_cmd(&a),
        "soak" => soak(&a),
        "oracle" => oracle(&a),
        #[cfg(not(mon_one_thread))]
        "purity" => purity::main(a.num("seed"), a.num("queries"), a.num("order"), a.num("threads"), a.get("repo"), a.get("one")),
        "literals" => {
            println!("{}", serde_json::to_string_pretty(&gen::literals(a.get("repo"))).unwrap());
            0
        }
        _ => {
            eprintln!("usage: mon run|worker|case|soak|oracle|purity|literals");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
