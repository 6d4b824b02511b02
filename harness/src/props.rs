//! The monitors: for every property a workload and an oracle over what the real library answers.
use crate::gen::*;
use crate::model::{self, MErr, MPart, Rx};
use ronda::verif_hooks::{Spec, VersionParsingError, VersionSpec};
use ronda::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::convert::TryFrom;
pub use crate::hash_case;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub kind: String,
    pub a: Vec<String>,
}

impl Case {
    pub fn new(kind: &str, a: Vec<String>) -> Case {
        Case { kind: kind.into(), a }
    }
}

pub enum Verdict {
    /// the oracle decided, and the case exercised the property
    Held,
    /// the oracle decided, but there was little to decide
    Trivial,
    /// outside what the property speaks about
    Skip,
    Bad(String),
}
use Verdict::*;

#[derive(Default)]
pub struct Obs {
    pub n: BTreeMap<String, u64>,
    pub scratch: String,
    pub ctx: Option<Ctx>,
}
impl Obs {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.n.get_mut(k) {
            *x += n
        } else {
            self.n.insert(k.to_string(), n);
        }
    }
}

pub const OPS: [CompOp; 10] = [CompOp::Eq, CompOp::Ne, CompOp::Lt, CompOp::Le, CompOp::Ge, CompOp::Gt, CompOp::StartsWith, CompOp::NotStartsWith, CompOp::Compatible, CompOp::Incompatible];

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Bad(format!($($t)*)); } };
}

fn short(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{:?}… ({} chars)", s.chars().take(140).collect::<String>(), s.chars().count())
    } else {
        format!("{:?}", s)
    }
}

fn parse(s: &str) -> Result<Version, String> {
    s.parse::<Version>().map_err(|e| e.to_string())
}

/// a version a caller assembled from parts: those of TEXT without the last CUT, and some more.
/// Written U+0001 CUT U+0001 MORE U+0001 TEXT
fn assembled_parts(s: &str) -> Option<(usize, Vec<&str>, &str)> {
    let mut it = s.strip_prefix('\u{1}')?.splitn(3, '\u{1}');
    let cut = it.next()?.parse().ok()?;
    let more = it.next()?.split(' ').filter(|x| !x.is_empty()).collect();
    Some((cut, more, it.next()?))
}

fn assembled(s: &str) -> Option<Version> {
    let (cut, more, text) = assembled_parts(s)?;
    // under the very text it was made from
    Version::parse(text, &|_: &str| {
        let mut v = conda_parser(text)?;
        v.truncate(v.len().saturating_sub(cut));
        for t in &more {
            v.push(match &t[..1] {
                "I" => VersionPart::Integer(t[1..].parse().unwrap_or(7)),
                "E" => VersionPart::Epoch(t[1..].parse().unwrap_or(7)),
                "N" => VersionPart::Empty,
                "P" => match serde_json::from_value(serde_json::json!({ "PEP440String": { "alpha": &t[1..] } })) {
                    Ok(p) => p,
                    Err(_) => return Err(VersionParsingError::UnknownParseError),
                },
                _ => VersionPart::LexicographicString(t[1..].into()),
            });
        }
        Ok(v)
    })
    .ok()
}

fn assembled_model(s: &str) -> Option<Vec<model::MPart>> {
    let (cut, more, text) = assembled_parts(s)?;
    let mut v = model::tokenise(text).ok()?;
    v.truncate(v.len().saturating_sub(cut));
    for t in more {
        v.push(match &t[..1] {
            "I" => model::MPart::Int(model::norm_int(&t[1..])),
            "E" => model::MPart::Epoch(t[1..].parse().ok()?),
            "N" => model::MPart::Empty,
            _ => model::MPart::Local(t[1..].into()),
        });
    }
    Some(v)
}

fn assemble_version(r: &mut Rng, text: &str, any: bool) -> String {
    let cut = if r.chance(60) { 0 } else { r.below(3) };
    let n = r.range(if cut == 0 { 1 } else { 0 }, 3);
    let more: Vec<String> = (0..n)
        .map(|_| match r.below(if any { 8 } else { 6 }) {
            0..=3 => format!("I{}", *r.pick(&[0u64, 0, 1, 2, 9, 10, 11, 255, 256, 65536, 2147483648])),
            4..=5 => format!("L{}", *r.pick(if any { &["a", "A", "", "x.1", "0", "dev"] } else { &["a", "A", "1", "x.1", "0", "dev"] })),
            6 => format!("E{}", *r.pick(&[0, 1, 2, -1, 300])),
            _ => "N".into(),
        })
        .collect();
    format!("\u{1}{}\u{1}{}\u{1}{}", cut, more.join(" "), text)
}

fn part_json(p: &VersionPart) -> serde_json::Value {
    use serde_json::json;
    match p {
        VersionPart::Epoch(i) => json!({ "Epoch": i }),
        VersionPart::Integer(i) => json!({ "Integer": i }),
        VersionPart::LexicographicString(s) => json!({ "LexicographicString": s }),
        VersionPart::PEP440String(s) => json!({ "PEP440String": { "alpha": s.to_string() } }),
        VersionPart::Empty => json!("Empty"),
    }
}

fn ord_name(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    }
}

/// the library's three-way answer; None if it is not one of the three
fn three(a: &Version, b: &Version) -> Option<Ordering> {
    match a.compare_version(b) {
        CompOp::Lt => Some(Ordering::Less),
        CompOp::Eq => Some(Ordering::Equal),
        CompOp::Gt => Some(Ordering::Greater),
        _ => None,
    }
}

/// digits other than ASCII ones, and letters with a disputed case folding: not decided by the model
pub fn modelled(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_graphic() && !matches!(c, '[' | '\\' | ']' | '^' | '`') || "éÉñÑöÖαΑжЖдД中あ".contains(c)) && !digit_runs(s).any(|d| model::cmp_digits(&model::norm_int(&d), "9223372036854775807") == Ordering::Greater)
}

fn digit_runs(s: &str) -> impl Iterator<Item = String> + '_ {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| x.len() > 18).map(|x| x.to_string())
}

// ---------------------------------------------------------------- enumerations

fn strings(al: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in al {
                next.push(format!("{}{}", s, a));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn component_versions(comps: &[&str], max: usize, locals: &[&str], epochs: &[&str]) -> Vec<String> {
    let mut bodies: Vec<String> = comps.iter().map(|s| s.to_string()).collect();
    let mut last = bodies.clone();
    for _ in 1..max {
        let mut next = vec![];
        for b in &last {
            for c in comps {
                next.push(format!("{}.{}", b, c));
            }
        }
        bodies.extend(next.iter().cloned());
        last = next;
    }
    let mut out = vec![];
    for e in epochs {
        for b in &bodies {
            for l in locals {
                out.push(format!("{}{}{}", e, b, l));
            }
        }
    }
    out
}

pub fn small_worlds(thorough: bool) -> Vec<Vec<String>> {
    let mut v = vec![
        strings(&["0", "1", ".", "a"], 4),
        strings(&["0", "2", "!", "+", "a"], if thorough { 4 } else { 3 }),
        strings(&["1", ".", "-", "_", "b"], if thorough { 4 } else { 3 }),
        strings(&["0", "9", "10", "."], 4),
        component_versions(&["0", "1", "2", "10", "a", "A", "b", "rc", "dev", "post", "Post", "DEV1"], 2, &["", "+a", "+B", "+0"], &[""]),
        component_versions(&["0", "1", "a", "dev", "post"], 2, &["", "+a"], &["", "0!", "1!", "2!", "10!"]),
        component_versions(&["0", "1", "a", "dev", "post"], if thorough { 4 } else { 3 }, &[""], &[""]),
        strings(&["d", "e", "v", "D", "p", "0"], if thorough { 4 } else { 3 }),
        strings(&["post", "dev", "a", "1"], 3),
    ];
    if thorough {
        v.push(component_versions(&["0", "1", "01", "255", "256", "257", "a", "aa", "Z", "predev", "xpost"], 3, &[""], &[""]));
        v.push(strings(&["0", "1", ".", "a", "_", "+", "!"], 4));
    }
    v
}

// ---------------------------------------------------------------- C01 total preorder

pub fn gen_family(c: &Ctx, r: &mut Rng, big: usize) -> Case {
    let o = match r.below(6) {
        0 => ANY,
        1 => Opt { long: false, ..PLAIN },
        _ => PLAIN,
    };
    let n = if r.chance(3) { big * 3 } else { r.range(6, big) };
    Case::new("family", cluster(r, c, o, n))
}

pub fn eval_order(case: &Case, o: &mut Obs) -> Verdict {
    let vs: Vec<(usize, Version)> = case.a.iter().enumerate().filter_map(|(i, s)| parse(s).ok().map(|v| (i, v))).collect();
    let n = vs.len();
    if n < 2 {
        return Skip;
    }
    let mut m = vec![Ordering::Equal; n * n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = match three(&vs[i].1, &vs[j].1) {
                Some(x) => x,
                None => return Bad(format!("comparing {} with {} answers none of less, equal, greater", short(&case.a[vs[i].0]), short(&case.a[vs[j].0]))),
            };
        }
    }
    o.add("comparisons", (n * n) as u64);
    for i in 0..n {
        ensure!(m[i * n + i] == Ordering::Equal, "{} is not equal to itself", short(&case.a[vs[i].0]));
        for j in 0..n {
            o.hit(ord_name(m[i * n + j]));
            ensure!(m[i * n + j] == m[j * n + i].reverse(), "{} vs {} is {:?} but the other way round {:?}", short(&case.a[vs[i].0]), short(&case.a[vs[j].0]), m[i * n + j], m[j * n + i]);
        }
    }
    // A relation is a total preorder iff "how many are smaller" ranks it consistently.
    let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| m[i * n + j] == Ordering::Greater).count()).collect();
    for i in 0..n {
        for j in 0..n {
            if m[i * n + j] != rank[i].cmp(&rank[j]) {
                // exhibit a witness: k with an intransitive triple
                for k in 0..n {
                    let (ij, jk, ik) = (m[i * n + j], m[j * n + k], m[i * n + k]);
                    let le = |x: Ordering| x != Ordering::Greater;
                    if le(ij) && le(jk) && (!le(ik) || ((ij == Ordering::Less || jk == Ordering::Less) && ik != Ordering::Less)) {
                        return Bad(format!("not transitive: {} {:?} {}, {} {:?} {}, but first vs last is {:?}", short(&case.a[vs[i].0]), ij, short(&case.a[vs[j].0]), short(&case.a[vs[j].0]), jk, short(&case.a[vs[k].0]), ik));
                    }
                }
                return Bad(format!("not a total preorder around {} and {} ({:?}, ranks {} and {})", short(&case.a[vs[i].0]), short(&case.a[vs[j].0]), m[i * n + j], rank[i], rank[j]));
            }
        }
    }
    // sorting with the language's own operators gives the ranking
    let mut idx: Vec<usize> = (0..n).collect();
    let mut bad = None;
    idx.sort_by(|x, y| match vs[*x].1.partial_cmp(&vs[*y].1) {
        Some(z) => z,
        None => {
            bad = Some((*x, *y));
            Ordering::Equal
        }
    });
    if let Some((x, y)) = bad {
        return Bad(format!("{} and {} are unordered", short(&case.a[vs[x].0]), short(&case.a[vs[y].0])));
    }
    for w in idx.windows(2) {
        ensure!(rank[w[0]] <= rank[w[1]], "sorting puts {} before {}", short(&case.a[vs[w[0]].0]), short(&case.a[vs[w[1]].0]));
    }
    let distinct = rank.iter().collect::<std::collections::BTreeSet<_>>().len();
    o.add("equivalence_classes", distinct as u64);
    if distinct > 1 && distinct < n { Held } else { Trivial }
}

// ---------------------------------------------------------------- C02 documented precedence

pub fn gen_pair(c: &Ctx, r: &mut Rng, o: Opt) -> Case {
    let a = version(r, c, o);
    let b = if r.chance(75) { twin(r, c, o, &a) } else { version(r, c, o) };
    if r.chance(50) { Case::new("pair", vec![a, b]) } else { Case::new("pair", vec![b, a]) }
}

fn judge_pair(sa: &str, sb: &str, va: &Version, vb: &Version, ma: &[MPart], mb: &[MPart]) -> Result<Ordering, String> {
    let want = model::cmp(ma, mb);
    match three(va, vb) {
        Some(x) if x == want => Ok(x),
        got => Err(format!("{} vs {}: documented order says {:?}, the library says {:?}", short(sa), short(sb), want, got)),
    }
}

pub fn eval_model(case: &Case, o: &mut Obs) -> Verdict {
    if case.kind == "pair" && !case.a.iter().all(|s| modelled(s)) {
        return Skip;
    }
    let mut vs = vec![];
    for s in &case.a {
        if let Ok(m) = model::tokenise(s) {
            match parse(s) {
                Ok(v) => vs.push((s, v, m)),
                Err(e) => return Bad(format!("version {} is refused: {}", short(s), e)),
            }
        }
    }
    if vs.len() < 2 {
        return Skip;
    }
    let mut held = false;
    for (sa, va, ma) in &vs {
        for (sb, vb, mb) in &vs {
            match judge_pair(sa, sb, va, vb, ma, mb) {
                Ok(x) => {
                    o.hit(ord_name(x));
                    if sa != sb {
                        held = true
                    }
                }
                Err(e) => return Bad(e),
            }
            let lead = (0..ma.len().max(mb.len())).take_while(|i| model::cmp_place(ma.get(*i), mb.get(*i)) == Ordering::Equal).count();
            o.hit(match lead {
                0 => "decided_at_place_1",
                1 => "decided_at_place_2",
                2..=4 => "decided_at_place_3_to_5",
                5..=15 => "decided_at_place_6_to_16",
                16..=63 => "decided_at_place_17_to_64",
                _ => "decided_beyond_place_64",
            });
        }
    }
    o.add("comparisons", (vs.len() * vs.len()) as u64);
    if held { Held } else { Trivial }
}

/// components above 2^63-1 (see known_findings.jsonl)
pub fn eval_big(case: &Case) -> Verdict {
    let (a, b) = (&case.a[0], &case.a[1]);
    let (ma, mb) = match (model::tokenise(a), model::tokenise(b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Skip,
    };
    match (parse(a), parse(b)) {
        (Ok(x), Ok(y)) => match judge_pair(a, b, &x, &y, &ma, &mb) {
            Ok(_) => Held,
            Err(e) => Bad(e),
        },
        _ => Bad(format!("{} or {} is refused", short(a), short(b))),
    }
}

// ---------------------------------------------------------------- C03 entry points agree

pub fn op_truth(op: CompOp, ab: Ordering) -> Option<bool> {
    Some(match op {
        CompOp::Eq => ab == Ordering::Equal,
        CompOp::Ne => ab != Ordering::Equal,
        CompOp::Lt => ab == Ordering::Less,
        CompOp::Le => ab != Ordering::Greater,
        CompOp::Ge => ab != Ordering::Less,
        CompOp::Gt => ab == Ordering::Greater,
        _ => return None,
    })
}

pub fn gen_agree(c: &Ctx, r: &mut Rng) -> Case {
    let o = if r.chance(20) { ANY } else { PLAIN };
    let mut case = gen_pair(c, r, o);
    if r.chance(8) {
        case.kind = "built".into();
        let i = r.below(2);
        if r.chance(30) {
            // the same text, other parts
            case.a[1 - i] = case.a[i].clone();
        }
        case.a[i] = assemble_version(r, &case.a[i], true);
        if r.chance(40) {
            case.a[1 - i] = assemble_version(r, &case.a[1 - i], true);
        }
    }
    case
}

pub fn eval_agree(case: &Case, o: &mut Obs) -> Verdict {
    let (sa, sb) = (&case.a[0], &case.a[1]);
    let built = case.kind == "built";
    let get = |s: &str| assembled(s).or_else(|| parse(s).ok());
    let (a, b) = match (get(sa), get(sb)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Skip,
    };
    if built {
        o.hit("assembled_by_caller");
    }
    let ab = match three(&a, &b) {
        Some(x) => x,
        None => return Bad(format!("comparing {} with {} is neither less, equal nor greater", short(sa), short(sb))),
    };
    o.hit(ord_name(ab));
    let who = || format!("{} vs {} ({:?})", short(sa), short(sb), ab);
    let c = a.compare_version(&b);
    ensure!(c.ord() == Some(ab), "{}: ord() of the answer is {:?}", who(), c.ord());
    ensure!(CompOp::from_ord(ab) == c, "{}: from_ord does not give the answer back", who());
    ensure!(c.factor() as i32 == ab as i32, "{}: factor {}", who(), c.factor());
    ensure!(built || a.compare_str(sb) == c, "{}: compare_str answers {:?}", who(), a.compare_str(sb));
    ensure!(three(&b, &a) == Some(ab.reverse()), "{}: reversed comparison answers {:?}", who(), b.compare_version(&a));
    ensure!(built || b.compare_str(sa).ord() == Some(ab.reverse()), "{}: reversed compare_str answers {:?}", who(), b.compare_str(sa));
    ensure!(a.partial_cmp(&b) == Some(ab), "{}: partial_cmp answers {:?}", who(), a.partial_cmp(&b));
    ensure!((a == b) == (ab == Ordering::Equal), "{}: == answers {}", who(), a == b);
    ensure!((a != b) == (ab != Ordering::Equal), "{}: != answers {}", who(), a != b);
    ensure!((a < b) == (ab == Ordering::Less), "{}: < answers {}", who(), a < b);
    ensure!((a <= b) == (ab != Ordering::Greater), "{}: <= answers {}", who(), a <= b);
    ensure!((a > b) == (ab == Ordering::Greater), "{}: > answers {}", who(), a > b);
    ensure!((a >= b) == (ab != Ordering::Less), "{}: >= answers {}", who(), a >= b);
    // other ways to the same version
    let ways: Vec<Version> = if built { vec![a.clone()] } else { vec![Version::from(sa.as_str()), match Version::parse(sa, &conda_parser) { Ok(v) => v, Err(e) => return Bad(format!("{} parses one way but not the other: {}", short(sa), e)) }, a.clone()] };
    let mut ways = ways;
    if sa.len() % 8 == 0 {
        // from its serialised fields
        let t = serde_json::json!({ "version": a.as_str(), "parts": a.parts().iter().map(part_json).collect::<Vec<_>>() }).to_string();
        // the names of the fields are the library's own: a form it refuses says nothing
        if let Ok(v) = serde_json::from_str::<Version>(&t) {
            if v.as_str() == a.as_str() {
                o.hit("deserialised");
                ways.push(v)
            }
        }
    }
    for w in &ways {
        ensure!(three(w, &b) == Some(ab), "{}: a version built another way answers {:?}", who(), w.compare_version(&b));
        ensure!(three(w, &a) == Some(Ordering::Equal), "{}: a version built another way differs from itself", short(sa));
    }
    let sw = a.startswith(&b);
    o.hit(if sw { "prefix" } else { "not_prefix" });
    for op in OPS.iter() {
        let got = a.compare_to_version(&b, op);
        ensure!(built || a.compare_to_str(sb, op) == got, "{}: {:?} by text answers {}, by version {}", who(), op, !got, got);
        ensure!(a.compare_to_version(&b, &op.invert()) == !got, "{}: {:?} and its inverse both answer {}", who(), op, got);
        if let Some(t) = op_truth(*op, ab) {
            ensure!(got == t, "{}: {:?} answers {}", who(), op, got);
            ensure!(b.compare_to_version(&a, &op.flip()) == got, "{}: {:?} answers {}, but the flipped operator the other way round does not", who(), op, got);
        }
        o.hit(if got { "operator_true" } else { "operator_false" });
    }
    ensure!(a.compare_to_version(&b, &CompOp::StartsWith) == sw, "{}: startswith {} but the operator disagrees", who(), sw);
    if sa == sb { Trivial } else { Held }
}

// ---------------------------------------------------------------- C04 operators

const NAMES: [(&str, &str); 10] = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("ge", ">="), ("gt", ">"), ("startswith", "="), ("notstartswith", "!=startswith"), ("compatible", "~="), ("incompatible", "!~=")];

const NO_OPS: &[&str] = &[
    "equal", "equals", "is", "same", "eql", "eqs", "not", "neq", "not_equal", "notequal", "not equal", "unequal", "differs", "less", "lessthan", "less_than", "less-than", "less than", "lte", "leq", "less_or_equal",
    "lessequal", "greater", "greaterthan", "greater_than", "more", "gte", "geq", "greater_or_equal", "above", "below", "min", "max", "before", "after", "starts", "starts_with", "startwith", "start", "prefix", "begins",
    "beginswith", "not_starts_with", "notstarts", "nstartswith", "notstartwith", "compat", "compatiblewith", "compatible_release", "notcompatible", "not_compatible", "incompat", "uncompatible", "in", "any", "all", "none",
    "exact", "match", "regex", "glob", "=>", "=<", "<>", "===", "!==", "!", "~", "~>", "^", "*", "**", "=~", "!~", "~~", "<<", ">>", "<=>", "!=startswith*", "=startswith", "!startswith", "==startswith", "!= startswith",
    "!=StartsWith", "!=starts", "~==", "~!=", "!~==", "!=~", "\u{ff1d}\u{ff1d}", "\u{ff1c}", "\u{ff1e}", "\u{2260}", "\u{2264}", "\u{2265}", "\u{2248}", "=.", "==.", "=*", "=V*", "0", "1", "-1", "&lt;", "%3c", "-eq", "-lt", ".eq.", "Eq()",
    "CompOp::Eq", "'eq'", "\"eq\"", "\"==\"", "eq\0", "==\0", "\u{feff}eq", "\u{feff}==", "\u{200b}lt", "eq\u{200b}", "<\u{200b}", "eq;", "eq,", "eq.", "eq:", "(eq)", "eq eq", "eq lt", "== ==", "<\t1", "< 1", "<1", "==1.0", ">=1",
];

/// texts that look like a sign or a name, and every word the sources mention
fn look_alikes(c: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = NO_OPS.iter().map(|x| x.to_string()).collect();
    v.extend(c.words.iter().cloned());
    v.extend(c.words.iter().map(|w| w.to_uppercase()));
    for (n, s) in NAMES.iter() {
        for b in [n, s] {
            let cs: Vec<char> = b.chars().collect();
            for i in 0..=cs.len() {
                let (x, y): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
                v.push(x.clone());
                v.push(y.clone());
                for mid in ["_", "-", " ", "\t", "\n", "=", "~", "!", "s", "e", "\0", "\u{301}", "\u{ad}", "\u{feff}", "x"] {
                    v.push(format!("{}{}{}", x, mid, y));
                }
                if i < cs.len() {
                    let rest: String = cs[i + 1..].iter().collect();
                    let like = match cs[i] {
                        's' => "\u{17f}\u{ff53}$",
                        'i' => "\u{130}\u{131}\u{456}1",
                        'e' => "\u{435}\u{ff45}3\u{e9}",
                        'l' => "1|\u{ff4c}",
                        'a' => "\u{430}\u{ff41}",
                        'o' => "0\u{43e}\u{3bf}",
                        'p' => "\u{440}",
                        'c' => "\u{441}",
                        'n' => "\u{ff4e}",
                        't' => "\u{ff54}\u{442}",
                        'q' => "\u{ff51}",
                        'g' => "\u{ff47}\u{261}",
                        '=' => "\u{ff1d}\u{2550}",
                        '<' => "\u{ff1c}\u{2039}",
                        '>' => "\u{ff1e}\u{203a}",
                        '!' => "\u{ff01}\u{1c3}",
                        '~' => "\u{ff5e}\u{2dc}",
                        _ => "",
                    };
                    for ch in like.chars() {
                        v.push(format!("{}{}{}", x, ch, rest));
                    }
                }
            }
            for k in 2..4 {
                v.push(b.repeat(k));
            }
        }
        v.push(format!("{}{}", n, s));
        v.push(format!("{}{}", s, n));
    }
    v
}

pub fn enum_ops(c: &Ctx, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for i in 0..10 {
        v.push(Case::new("op", vec![i.to_string()]));
    }
    for s in look_alikes(c) {
        for b in ["", " ", "\t", "\n", "\u{a0}"] {
            for t in [format!("{}{}", b, s), format!("{}{}", s, b)] {
                v.push(Case::new("sign", vec![t.clone()]));
                v.push(Case::new("name", vec![t.clone()]));
                v.push(Case::new("name", vec![t.to_uppercase()]));
            }
        }
    }
    for s in strings(&["=", "!", "<", ">", "~", " ", "s"], if thorough { 6 } else { 5 }) {
        v.push(Case::new("sign", vec![s]));
    }
    for s in strings(&["e", "q", "n", "l", "t", "g", "E", "T"], if thorough { 5 } else { 4 }) {
        v.push(Case::new("name", vec![s]));
    }
    v
}

pub fn gen_op(c: &Ctx, r: &mut Rng) -> Case {
    let (n, s) = *r.pick(&NAMES);
    let name = r.chance(50);
    let base = if name { n } else { s };
    let blank = |r: &mut Rng| -> String { (0..r.below(4)).map(|_| *r.pick(&[' ', '\t', '\n', '\r', '\u{a0}', '\u{3000}', '\u{b}'])).collect() };
    let t = match r.below(8) {
        0 => junk(r, c),
        1 => word(r, c, ANY),
        2 if r.chance(20) => {
            let w = new_word(r, c, 100).unwrap_or_else(|| r.pick(NO_OPS).to_string());
            if r.chance(50) { format!("{}{}", base, w) } else { format!("{}{}", w, base) }
        }
        2 => {
            // one edit
            let mut cs: Vec<char> = base.chars().collect();
            let i = r.below(cs.len() + 1);
            let al: Vec<char> = "=!<>~ eqnltgstartswihcompb*\u{130}ſK".chars().collect();
            match r.below(3) {
                0 => cs.insert(i, *r.pick(&al)),
                1 if i < cs.len() => {
                    cs.remove(i);
                }
                _ if i < cs.len() => cs[i] = *r.pick(&al),
                _ => cs.push(*r.pick(&al)),
            }
            cs.into_iter().collect()
        }
        _ => {
            let b: String = if name { base.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c }).collect() } else { base.to_string() };
            format!("{}{}{}", blank(r), b, blank(r))
        }
    };
    Case::new(if name { "name" } else { "sign" }, vec![t])
}

pub fn eval_ops(case: &Case, o: &mut Obs) -> Verdict {
    match case.kind.as_str() {
        "op" => {
            let i: usize = case.a[0].parse().unwrap();
            let op = OPS[i];
            let (n, s) = NAMES[i];
            ensure!(op.name() == n, "{:?} has name {:?}", op, op.name());
            ensure!(op.sign() == s, "{:?} has sign {:?}", op, op.sign());
            ensure!(CompOp::from_name(op.name()) == Ok(op) && CompOp::from_sign(op.sign()) == Ok(op), "{:?} does not come back from its name or sign", op);
            let inv = [1, 0, 4, 5, 2, 3, 7, 6, 9, 8][i];
            let opp = [1, 0, 5, 4, 3, 2, 7, 6, 9, 8][i];
            let fl = [0, 1, 5, 4, 3, 2, 6, 7, 8, 9][i];
            ensure!(op.invert() == OPS[inv] && op.as_inverted() == OPS[inv], "{:?} inverts to {:?}/{:?}", op, op.invert(), op.as_inverted());
            ensure!(op.opposite() == OPS[opp] && op.as_opposite() == OPS[opp], "{:?} has opposite {:?}/{:?}", op, op.opposite(), op.as_opposite());
            ensure!(op.flip() == OPS[fl] && op.as_flipped() == OPS[fl], "{:?} flips to {:?}/{:?}", op, op.flip(), op.as_flipped());
            ensure!(op.invert().invert() == op && op.opposite().opposite() == op && op.flip().flip() == op, "{:?}: an involution is none", op);
            let f = [0, 0, -1, -1, 1, 1, 0, 0, 0, 0][i];
            if i < 6 {
                ensure!(op.factor() == f, "{:?} has factor {}", op, op.factor());
            }
            let od = [Some(Ordering::Equal), None, Some(Ordering::Less), None, None, Some(Ordering::Greater), None, None, None, None][i];
            ensure!(op.ord() == od, "{:?} has ordering {:?}", op, op.ord());
            if let Some(x) = od {
                ensure!(CompOp::from_ord(x) == op, "{:?} does not come back from its ordering", op);
            }
            for (j, q) in OPS.iter().enumerate() {
                ensure!((op == *q) == (i == j), "{:?} == {:?} is {}", op, q, op == *q);
            }
            o.hit("operators");
            Held
        }
        k => {
            let t = case.a[0].trim();
            let (want, got) = if k == "sign" {
                (NAMES.iter().position(|x| x.1 == t), CompOp::from_sign(&case.a[0]))
            } else {
                (NAMES.iter().position(|x| x.0 == t.to_lowercase()), CompOp::from_name(&case.a[0]))
            };
            let want = want.map(|i| OPS[i]).ok_or(());
            ensure!(want == got, "{} {} gives {:?} instead of {:?}", k, short(&case.a[0]), got, want);
            o.hit(if got.is_ok() { "recognised" } else { "refused" });
            if got.is_ok() || NAMES.iter().any(|x| x.1.contains(t) || t.contains(x.0)) { Held } else { Trivial }
        }
    }
}

// ---------------------------------------------------------------- C05 parse fidelity

pub fn gen_text(c: &Ctx, r: &mut Rng) -> Case {
    let o = if r.chance(15) { ANY } else { PLAIN };
    let mut s = match r.below(10) {
        0..=6 => version(r, c, o),
        7 if r.chance(30) => {
            // blanks at the ends, around the epoch and around separators
            let v = version(r, c, o);
            let b = *r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{feff}", "'", "\"", "v", "V", "="]);
            match r.below(6) {
                0 => format!("{}{}", v, b),
                1 => format!("{}{}", b, v),
                2 => format!("{}{}{}", b, v, b),
                3 => v.replacen('.', &format!(".{}.", b), 1),
                4 => v.replacen('.', &format!("{}.{}", b, b), 1),
                _ => v.replacen('!', &format!("{}!{}", b, b), 1),
            }
        }
        7 => {
            let v = version(r, c, PLAIN);
            twin(r, c, PLAIN, &v)
        }
        8 => {
            // invalid on purpose: duplicated markers, bad epochs
            let v = version(r, c, PLAIN);
            match r.below(5) {
                0 => format!("{}!{}", r.pick(&["a", "", "32768", "-32769", "1.0", "99999", "1a", "0x1", "+5", "-0", " 1", "1 ", "--1", "+", "-"]), v),
                1 => format!("1!{}!2", v),
                2 => format!("{}+a+b", v),
                3 => format!("{}+a!1", v),
                _ => format!("{}!+{}", v, v),
            }
        }
        _ => {
            let al: Vec<char> = "01a.!+-_".chars().collect();
            (0..r.range(0, 9)).map(|_| *r.pick(&al)).collect()
        }
    };
    if s.len() > 5000 {
        s = s.chars().take(200).collect();
    }
    Case::new("text", vec![s])
}

fn err_kind(e: &VersionParsingError) -> &'static str {
    match e {
        VersionParsingError::DuplicatedEpochCharacter => "duplicate epoch",
        VersionParsingError::DuplicatedLocalSeparatorCharacter => "duplicate local",
        _ => "other",
    }
}

pub fn eval_text(case: &Case, o: &mut Obs) -> Verdict {
    if case.kind == "custom" {
        return eval_custom(case, o);
    }
    let s = &case.a[0];
    if !s.chars().all(|c| !c.is_numeric() || c.is_ascii_digit()) || !modelled_digits(s) {
        return Skip;
    }
    let got = Version::parse(s, &conda_parser);
    let got2 = s.parse::<Version>();
    ensure!(got.is_ok() == got2.is_ok(), "{} is accepted one way and refused the other", short(s));
    match (model::tokenise(s), got) {
        (Err(m), Err(e)) => {
            let want = match m {
                MErr::DupEpoch => "duplicate epoch",
                MErr::DupLocal => "duplicate local",
                MErr::BadEpoch => "other",
            };
            ensure!(err_kind(&e) == want, "{} is refused with the wrong error: {}", short(s), e);
            if let Err(e2) = got2 {
                ensure!(err_kind(&e2) == want, "{} is refused with the wrong error by parse(): {}", short(s), e2);
            }
            o.hit(want);
            Held
        }
        (Ok(_), Err(e)) => Bad(format!("{} is refused: {}", short(s), e)),
        (Err(m), Ok(_)) => Bad(format!("{} is accepted although it is invalid ({:?})", short(s), m)),
        (Ok(m), Ok(v)) => {
            for v in [&v, &v.clone(), got2.as_ref().ok().unwrap_or(&v)] {
                ensure!(v.as_str() == s, "{} reads back as {}", short(s), short(v.as_str()));
                ensure!(&format!("{}", v) == s, "{} displays as {}", short(s), short(&format!("{}", v)));
                ensure!(v.parts().len() == m.len() && v.part_count() == m.len(), "{} has {} components ({} counted), expected {:?}", short(s), v.parts().len(), v.part_count(), m);
                for (i, want) in m.iter().enumerate() {
                    let p = match v.part(i) {
                        Ok(p) => p,
                        Err(_) => return Bad(format!("{}: component {} of {} is missing", short(s), i, m.len())),
                    };
                    for p in [p, &v.parts()[i]] {
                        let same = match (want, p) {
                            (MPart::Epoch(e), VersionPart::Epoch(x)) => *e == *x as i32,
                            (MPart::Int(d), VersionPart::Integer(x)) => *d == x.to_string(),
                            (MPart::Local(l), VersionPart::LexicographicString(x)) => l == x,
                            (MPart::Text(t), VersionPart::PEP440String(_)) => format!("{}", p) == format!("PEP440String({})", t),
                            (MPart::Empty, VersionPart::Empty) => true,
                            _ => false,
                        };
                        ensure!(same, "{}: component {} is {:?}, expected {:?}", short(s), i, p, want);
                    }
                    o.hit(match want {
                        MPart::Epoch(_) => "epoch",
                        MPart::Int(_) => "number",
                        MPart::Local(_) => "local",
                        MPart::Text(_) => "text_part",
                        MPart::Empty => "empty",
                    });
                }
                // nor does one whose low bits are those of a component
                let wide = (3..64).map(|k| (1usize << k).wrapping_add(m.len().saturating_sub(1))).filter(|i| *i >= m.len());
                for i in [m.len(), m.len() + 1, usize::MAX].into_iter().chain(wide) {
                    ensure!(v.part(i).is_err(), "{}: component {} beyond the end exists", short(s), i);
                }
            }
            if m.len() > 1 { Held } else { Trivial }
        }
    }
}

fn modelled_digits(s: &str) -> bool {
    !digit_runs(s).any(|d| model::cmp_digits(&model::norm_int(&d), "9223372036854775807") == Ordering::Greater)
}

/// a parser of the caller's own: its parts and its errors arrive unchanged
pub fn gen_custom(c: &Ctx, r: &mut Rng) -> Case {
    let n = r.below(6);
    let mut a = vec![version(r, c, PLAIN)];
    for _ in 0..n {
        a.push(match r.below(5) {
            0 => format!("I{}", number(r, c)),
            1 => format!("I-{}", number(r, c)),
            2 => format!("L{}", word(r, c, PLAIN)),
            3 => format!("E{}", r.below(30000)),
            _ => "N".into(),
        });
    }
    if r.chance(10) {
        a.push("X".into());
    }
    Case::new("custom", a)
}

fn eval_custom(case: &Case, o: &mut Obs) -> Verdict {
    let s = &case.a[0];
    let build = |seen: &str| -> Result<Vec<VersionPart>, VersionParsingError> {
        let mut v = vec![];
        if seen != s {
            return Err(VersionParsingError::Message("the parser was given another text".into()));
        }
        for t in &case.a[1..] {
            v.push(match &t[..1] {
                "I" => VersionPart::Integer(t[1..].parse().unwrap_or(7)),
                "L" => VersionPart::LexicographicString(t[1..].into()),
                "E" => VersionPart::Epoch(t[1..].parse().unwrap_or(7)),
                "N" => VersionPart::Empty,
                _ => return Err(VersionParsingError::UnknownParseError),
            });
        }
        Ok(v)
    };
    let want = build(s);
    match (Version::parse(s, &build), want) {
        (Err(e), Err(w)) => {
            ensure!(e == w, "the caller's parser failed with {:?}, parse reports {:?}", w, e);
            o.hit("custom_error");
        }
        (Ok(v), Ok(w)) => {
            ensure!(v.as_str() == s, "{} reads back as {}", short(s), short(v.as_str()));
            ensure!(v.part_count() == w.len() && v.parts().len() == w.len(), "{} parts instead of {}", v.part_count(), w.len());
            for i in 0..w.len() {
                ensure!(format!("{:?}", v.parts()[i]) == format!("{:?}", w[i]), "part {} became {:?} instead of {:?}", i, v.parts()[i], w[i]);
            }
            o.hit("custom_parser");
        }
        (g, w) => return Bad(format!("the caller's parser said {:?}, parse said {:?}", w.map(|x| x.len()), g.map(|x| x.part_count()))),
    }
    Held
}

// ---------------------------------------------------------------- C06 totality

/// under a sanitizer, whose frames are larger
pub static BIG_STACK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn gen_total(c: &Ctx, r: &mut Rng) -> Case {
    match r.below(12) {
        0..=2 => {
            let a = if r.chance(60) { junk(r, c) } else { version(r, c, ANY) };
            let b = if r.chance(40) { twin(r, c, ANY, &a) } else { junk(r, c) };
            Case::new("ver", vec![a, b])
        }
        3 => Case::new("spec", vec![junk(r, c), version(r, c, ANY), junk(r, c)]),
        4..=5 => {
            // operators glued to anything
            let op = *r.pick(&["", "=", "==", "!=", "<", "<=", ">", ">=", "~=", "!", "~", "===", "><", "!~=", "=~", "^", "*"]);
            let mut t = if r.chance(50) { junk(r, c) } else { version(r, c, ANY) };
            if r.chance(30) {
                t.push_str(r.pick(&["*", ".*", "$", "**", ".", "*.", ".*.*", "@", " "]));
            }
            Case::new("spec", vec![format!("{}{}", op, t), version(r, c, ANY), junk(r, c)])
        }
        6 => {
            // regular expressions, broken ones included
            let al: Vec<&str> = vec!["(", ")", "[", "]", "{", "}", "*", "+", "?", "\\", ".", "|", "1", "a", "-", "^", "$", ",", "\\d", "(?i)", "{2}", "é", "[^", "\\p{L}", "(?P<n>", "\\b", "{,3}", "{99}"];
            let n = r.range(0, 10);
            let body: String = (0..n).map(|_| *r.pick(&al)).collect();
            Case::new("spec", vec![format!("^{}$", body), version(r, c, ANY), junk(r, c)])
        }
        7..=8 => {
            let near = cluster(r, c, Opt { long: false, ..SPEC }, 3);
            let mut budget = 30;
            let a = ast(r, c, &near, 4, &mut budget);
            let mut t: Vec<char> = render(r, &a, true).chars().collect();
            for _ in 0..r.below(4) {
                let i = r.below(t.len() + 1);
                if r.chance(50) && i < t.len() {
                    t.remove(i);
                } else {
                    let al: Vec<char> = "()|,^$ *<>=!~@".chars().collect();
                    t.insert(i, *r.pick(&al));
                }
            }
            Case::new("spec", vec![t.into_iter().collect(), near[0].clone(), near[1].clone()])
        }
        9 => {
            let n = r.below(6);
            let mut a = vec![r.pick(&[",", "|", "", "(", "x"]).to_string()];
            for _ in 0..n {
                a.push(if r.chance(70) { let v = version(r, c, SPEC); leaf(r, c, &v) } else { junk(r, c) });
            }
            Case::new("vec", a)
        }
        10 => {
            let t = junk(r, c);
            Case::new("json", vec![hex(t.as_bytes())])
        }
        _ if r.chance(90) => Case::new("ver", vec![junk(r, c), junk(r, c)]),
        _ => {
            let n = r.range(1, 1000);
            let n = if r.chance(80) { n.min(60) } else { n };
            let k = *r.pick(&["alternate", "parens", "open", "close", "wide", "commas", "regex", "globs", "dots", "mixed", "needle", "eldeen"]);
            Case::new("nest", vec![k.into(), n.to_string()])
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn nest(k: &str, n: usize) -> String {
    match k {
        "alternate" => {
            let mut s = String::new();
            for i in 0..n {
                s.push_str(if i % 2 == 0 { "1," } else { "2|" });
                s.push('(');
            }
            s.push('3');
            s + &")".repeat(n)
        }
        "parens" => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
        "open" => "(".repeat(n) + "1",
        "close" => "1".to_string() + &")".repeat(n),
        "wide" => vec![">1"; n.min(400)].join(","),
        "commas" => ",".repeat(n),
        "regex" => format!("^{}1{}$", "(".repeat(n), ")".repeat(n)),
        "globs" => "1.*".repeat(n.min(300)) + ".1",
        // only the innermost part decides
        "needle" => (0..n).fold("3".to_string(), |s, i| format!("({}({}))", if i % 2 == 0 { ">0," } else { "<0|" }, s)),
        "eldeen" => (0..n).fold("3".to_string(), |s, i| format!("(({}){})", s, if i % 2 == 0 { ",>0" } else { "|<0" })),
        "mixed" => {
            let mut r = Rng::new(&[n as u64, 0x4e57]);
            let mut s = String::from("3");
            for i in 0..n {
                let leaf = *r.pick(&["1", ">=0", "<9", "3.*", "1.*.2", "^[0-9]+$", "!=4", "~=1.2"]);
                let op = if i % 2 == 0 { "," } else { "|" };
                let b = *r.pick(&["", "", "", " "]);
                s = match r.below(4) {
                    0 => format!("({}{}{}{})", leaf, op, b, s),
                    1 => format!("({}{}{}{})", s, b, op, leaf),
                    2 => format!("({}{}{}{}{})", leaf, op, s, op, leaf),
                    _ => format!("({}({}){}{})", b, s, op, leaf),
                };
            }
            s
        }
        _ => "1.".repeat(n),
    }
}

fn drive_spec(x: &VersionSpecOrConstraintTree, text: &str, others: &[String], o: &mut Obs) -> Option<String> {
    let _ = format!("{:?}", x);
    if text.len() < 400 {
        // the pretty form is quadratic in the depth
        let _ = format!("{:#?}", x);
    }
    if let Err(e) = untreeify(x) {
        return Some(format!("the accepted spec {} cannot be written out: {}", short(text), e));
    }
    let y = x.clone();
    if !(y == *x) {
        return Some(format!("the accepted spec {} differs from its own copy", short(text)));
    }
    for s in others {
        if let Ok(v) = parse(s) {
            let m = x.test_match_version(&v);
            o.hit(if m { "spec_matches" } else { "spec_rejects" });
        }
    }
    let _ = (x.is_exact(), x.get_spec(), x.raw_value(), x.exact_value());
    None
}

pub fn eval_total(case: &Case, o: &mut Obs) -> Verdict {
    match case.kind.as_str() {
        "ver" => {
            let vs: Vec<Version> = case.a.iter().filter_map(|s| Version::parse(s, &conda_parser).ok()).collect();
            o.add("versions_refused", (case.a.len() - vs.len()) as u64);
            o.add("versions_accepted", vs.len() as u64);
            for v in &vs {
                let _ = format!("{} {:?} {:#?}", v, v, v);
                for p in v.parts() {
                    let _ = format!("{} {:?}", p, p);
                    for q in v.parts() {
                        let _ = (p.partial_cmp(q), p == q);
                    }
                }
                for i in [0, v.part_count(), usize::MAX] {
                    let _ = v.part(i);
                }
                for w in &vs {
                    ensure!(v.partial_cmp(w).is_some(), "{} and {} are unordered", short(v.as_str()), short(w.as_str()));
                    for op in OPS.iter() {
                        let _ = v.compare_to_version(w, op);
                        let _ = v.compare_to_str(w.as_str(), op);
                    }
                    let _ = (v.startswith(w), v.compare_str(w.as_str()));
                }
            }
            for s in &case.a {
                let _ = (CompOp::from_name(s), CompOp::from_sign(s), Combinator::from(s.as_str()));
                if let Err(e) = s.parse::<Version>() {
                    let _ = format!("{} {:?}", e, e);
                }
            }
            if vs.is_empty() { Trivial } else { Held }
        }
        "spec" => {
            let t = &case.a[0];
            let mut ok = false;
            match VersionSpecOrConstraintTree::try_from(t.as_str()) {
                Ok(x) => {
                    ok = true;
                    if let Some(e) = drive_spec(&x, t, &case.a[1..], o) {
                        return Bad(e);
                    }
                }
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                }
            }
            match treeify(t) {
                Ok(x) => {
                    ok = true;
                    if let Some(e) = drive_spec(&VersionSpecOrConstraintTree::ConstraintTree(x), t, &case.a[1..], o) {
                        return Bad(e);
                    }
                }
                Err(e) => {
                    let _ = format!("{}", e);
                }
            }
            o.hit(if ok { "specs_accepted" } else { "specs_refused" });
            Held
        }
        "vec" => {
            match ConstraintTree::try_from(case.a.iter().map(|s| s.as_str()).collect::<Vec<_>>()) {
                Ok(t) => {
                    o.hit("trees_accepted");
                    let _ = format!("{:?} {:#?}", t, t);
                    if t.parts.is_empty() {
                        // there is no spec text to write, which is an error where one can be returned
                        let t = VersionSpecOrConstraintTree::ConstraintTree(t);
                        let _ = (untreeify(&t).is_ok(), t.clone() == t, t.is_exact(), t.get_spec(), t.raw_value(), t.exact_value(), t.test_match("1.0"));
                        o.hit("trees_without_parts");
                    } else {
                        if let Some(e) = drive_spec(&VersionSpecOrConstraintTree::ConstraintTree(t), &format!("{:?}", case.a), &["1.0".into(), "2.0a1".into()], o) {
                            return Bad(e);
                        }
                    }
                }
                Err(e) => {
                    o.hit("trees_refused");
                    let _ = format!("{} {:?}", e, e);
                }
            }
            let empty: Vec<&str> = vec![];
            let _ = ConstraintTree::try_from(empty).is_ok();
            Held
        }
        "json" => {
            let p = format!("{}/total.json", o.scratch);
            if crate::watch::own(|| std::fs::write(&p, unhex(&case.a[0]))).is_err() {
                return Skip;
            }
            o.hit(if read_repodata(&p).is_ok() { "repodata_accepted" } else { "repodata_refused" });
            Held
        }
        "long" => {
            let n: usize = case.a[1].parse().unwrap_or(1);
            let t = match case.a[0].as_str() {
                "dots" => "1.".repeat(n),
                "only dots" => ".".repeat(n),
                "digits" => "9".repeat(n),
                "zeros" => "0".repeat(n) + "1",
                "letters" => "é".repeat(n),
                "mixed" => "1a_".repeat(n),
                "bangs" => "1!".repeat(n),
                "locals" => format!("1+{}", "1.a-".repeat(n)),
                "pluses" => "1+".repeat(n),
                "blanks" => " ".repeat(n) + "1",
                _ => "*1".repeat(n),
            };
            let work = || {
                if let (Ok(v), Ok(w)) = (parse(&t), parse(&format!("{}1", t))) {
                    let _ = (v == w, v.partial_cmp(&w), w.startswith(&v), v.startswith(&w), v.to_string().len(), format!("{:?}", v).len(), v.clone() == v);
                    o.hit("long_versions");
                }
                for f in ["", ">=", "!=", "~=", "=", "===", "@", "^"] {
                    for e in ["", "*", ".*", "$"] {
                        if let Ok(x) = VersionSpecOrConstraintTree::try_from(format!("{}{}{}", f, t, e).as_str()) {
                            let _ = (x.test_match("1.0"), x.clone() == x, untreeify(&x).is_ok(), format!("{:?}", x).len());
                            o.hit("long_specs");
                        }
                    }
                }
                let _ = (CompOp::from_name(&t), CompOp::from_sign(&t));
                Held
            };
            if cfg!(miri) || BIG_STACK.load(std::sync::atomic::Ordering::Relaxed) {
                return Held;
            }
            std::thread::scope(|s| match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, work).unwrap().join() {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            })
        }
        "nest" => {
            let t = nest(&case.a[0], case.a[1].parse().unwrap_or(1));
            o.hit("nested_specs");
            let c = Case::new("spec", vec![t, "1.0".into(), "3".into()]);
            if cfg!(miri) || BIG_STACK.load(std::sync::atomic::Ordering::Relaxed) {
                return eval_total(&c, o);
            }
            // with no more room than a thread of the language's own gets
            std::thread::scope(|s| match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || eval_total(&c, o)).unwrap().join() {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            })
        }
        _ => Skip,
    }
}

pub fn enum_total(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for s in strings(&["1", "a", ".", "!", "+", "*", "@"], if thorough { 5 } else { 4 }) {
        v.push(Case::new("spec", vec![s.clone(), "1.a".into()]));
        v.push(Case::new("ver", vec![s]));
    }
    for s in strings(&["1", "=", "<", "!", "~", "*", "^", "$"], if thorough { 5 } else { 4 }) {
        v.push(Case::new("spec", vec![s, "1".into()]));
    }
    for s in strings(&["1", "(", ")", "|", ",", " ", "^", "$"], if thorough { 6 } else { 4 }) {
        v.push(Case::new("spec", vec![s, "1".into()]));
    }
    for k in ["dots", "only dots", "digits", "zeros", "letters", "mixed", "bangs", "locals", "pluses", "blanks", "globs"] {
        for n in [1000, 20_000, if thorough { 300_000 } else { 100_000 }] {
            if k == "globs" && n > 20_000 {
                continue;
            }
            v.push(Case::new("long", vec![k.into(), n.to_string()]));
        }
    }
    for k in ["alternate", "parens", "open", "close", "wide", "commas", "regex", "globs", "dots", "mixed", "needle", "eldeen"] {
        for n in [1, 2, 3, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000] {
            v.push(Case::new("nest", vec![k.into(), n.to_string()]));
        }
    }
    v
}

// ---------------------------------------------------------------- C07 startswith

pub fn gen_prefix(c: &Ctx, r: &mut Rng) -> Case {
    let o = Opt { long: r.chance(60), ..PLAIN };
    let a = version(r, c, o);
    let b = match r.below(10) {
        0 => version(r, c, o),
        1..=3 => twin(r, c, o, &a),
        _ => {
            // cut somewhere, possibly respelled
            let cuts: Vec<usize> = a.char_indices().skip(1).map(|x| x.0).collect();
            let mut b = if cuts.is_empty() { a.clone() } else { a[..cuts[r.below(cuts.len())]].to_string() };
            if r.chance(50) {
                b = twin(r, c, o, &b);
            }
            b
        }
    };
    if r.chance(8) {
        let x = if r.chance(50) { &a } else { &b };
        let x = assemble_version(r, x, false);
        let y = if r.chance(50) { assemble_version(r, &b, false) } else { b };
        return Case::new("built", vec![x, y, a]);
    }
    if r.chance(90) { Case::new("pair", vec![a, b]) } else { Case::new("pair", vec![b, a]) }
}

pub fn eval_prefix(case: &Case, o: &mut Obs) -> Verdict {
    if case.kind == "pair" && !case.a.iter().all(|s| modelled(s)) || case.kind == "built" && !case.a.iter().all(|s| modelled(assembled_parts(s).map_or(s, |x| x.2))) {
        return Skip;
    }
    let mut vs = vec![];
    for s in &case.a {
        if let (Some(m), Some(v)) = (assembled_model(s), assembled(s)) {
            o.hit("assembled_by_caller");
            vs.push((s, v, m));
        } else if let (Ok(m), Ok(v)) = (model::tokenise(s), parse(s)) {
            vs.push((s, v, m));
        }
    }
    if vs.len() < 2 {
        return Skip;
    }
    let mut held = false;
    for (sa, va, ma) in &vs {
        for (sb, vb, mb) in &vs {
            let want = model::startswith(ma, mb);
            ensure!(va.startswith(vb) == want, "{} starts with {}: answered {}, expected {}", short(sa), short(sb), !want, want);
            ensure!(va.compare_to_version(vb, &CompOp::StartsWith) == want && va.compare_to_version(vb, &CompOp::NotStartsWith) == !want, "{} starts with {}: the operator answers otherwise", short(sa), short(sb));
            let near = ma.len() > 1 && mb.len() > 1 && model::cmp_place(ma.first(), mb.first()) == Ordering::Equal;
            held |= sa != sb && (want || near);
            o.hit(if want { if sa == sb { "itself" } else { "prefix" } } else if near { "near_miss" } else { "not_prefix" });
        }
    }
    if held { Held } else { Trivial }
}

// ---------------------------------------------------------------- C08 single specs

pub fn gen_spec(c: &Ctx, r: &mut Rng) -> Case {
    if r.chance(5) {
        // texts no version of a spec usually has: accepted or not, but not cut
        let short = Opt { long: false, ..SPEC };
        let v = version(r, c, short);
        let w = version(r, c, short);
        let gap = *r.pick(&[" ", "  ", "\t", "\n", " or ", " and ", " #", "\u{a0}", ";", "/", ":", "=", " <", " >=", "<", " !=", "&", "\u{0}"]);
        let text = format!("{}{}{}", v, gap, match r.below(3) {
            0 => w.clone(),
            1 => r.pick(&["foo", "py37_0", "0", "x", "a b c"]).to_string(),
            _ => twin(r, c, short, &v),
        });
        let mut a = vec![r.pick(&["bare", "==", "!=", "<", "<=", ">", ">=", "=", "~="]).to_string(), text.clone(), v.clone(), w, text];
        for _ in 0..3 {
            a.push(twin(r, c, SPEC, &v));
        }
        return Case::new("loose", a);
    }
    let o = Opt { long: r.chance(15), ..SPEC };
    let form = *r.pick(FORMS);
    let mut v = version(r, c, o);
    if r.chance(12) {
        // separators that separate nothing
        let s = *r.pick(&["-", "_", ".", "..", "_.", "--", ".-"]);
        let b = v.chars().position(|ch| ch == '!').map_or(0, |i| i + 1);
        match r.below(3) {
            0 => v.insert_str(b, s),
            1 if !v.contains('+') => v.push_str(s),
            // a trailing '.' would end the version, and inside a local part it would stay
            _ if !s.starts_with('.') => v.push_str(&s[..1]),
            _ => v.push('-'),
        }
    }
    if form == "@" {
        let i = r.below(v.len() + 1);
        if v.is_char_boundary(i) { v.insert(i, '@') } else { v.push('@') }
    }
    let mut a = vec![form.to_string(), v.clone()];
    for _ in 0..r.range(2, 8) {
        let x = match r.below(8) {
            0 => version(r, c, PLAIN),
            1 => v.clone(),
            5..=6 if form == "@" => {
                let mut t = twin(r, c, Opt { spec: false, ..o }, &v);
                if r.chance(50) {
                    t = flip_case(r, &v);
                }
                t
            }
            2 => format!("{}.{}", v, version(r, c, Opt { long: false, ..SPEC })),
            3 => format!("{}{}", v, r.pick(&[".0", ".1", "a", "rc1", ".dev0", ".post1", "+x", "0", ".0.0", "-1"])),
            4 => {
                let t = twin(r, c, SPEC, &v.replace('@', ""));
                twin(r, c, SPEC, &t)
            }
            _ => twin(r, c, SPEC, &v),
        };
        a.push(x);
    }
    if r.chance(20) {
        let x = r.pick(&a[1..]).clone();
        a.push(assemble_version(r, &x, true));
    }
    Case::new("spec", a)
}

pub fn single(form: &str, v: &str) -> Result<VersionSpecOrConstraintTree, String> {
    VersionSpecOrConstraintTree::try_from(spec_of(form, v).as_str()).map_err(|e| e.to_string())
}

/// what a single spec of this form should answer for version `w`, in terms of the comparison API
fn spec_truth(form: &str, v: &Version, w: &Version, wtext: &str) -> Option<bool> {
    let c = three(w, v)?;
    Some(match form {
        "bare" | "==" | "==V.*" => c == Ordering::Equal,
        "!=" => c != Ordering::Equal,
        "<" | "<V.*" => c == Ordering::Less,
        "<=" | "<=V.*" => c != Ordering::Greater,
        ">" | ">V.*" => c == Ordering::Greater,
        ">=" | ">=V.*" => c != Ordering::Less,
        "=" | "V*" | "V.*" | "V-*" | "V_*" | "=V.*" => w.startswith(v),
        "!=V.*" => !w.startswith(v),
        "~=" => w.compare_to_version(v, &CompOp::Compatible),
        "*" => true,
        "@" => v.as_str() == wtext,
        _ => return None,
    })
}

pub fn eval_spec(case: &Case, o: &mut Obs) -> Verdict {
    let (form, v) = (case.a[0].as_str(), case.a[1].as_str());
    let text = spec_of(form, v);
    if model::tokenise(v).is_err() {
        return Skip;
    }
    let spec = match single(form, v) {
        Ok(s) => s,
        Err(_) if case.kind == "loose" => {
            o.hit("odd_text_refused");
            return Trivial;
        }
        Err(e) => return Bad(format!("the spec {} is refused: {}", short(&text), e)),
    };
    // V-* is W* with W = V-
    let bound = match form {
        "V-*" | "V_*" => text.trim_end_matches('*'),
        _ => v,
    };
    let ver = match parse(bound) {
        Ok(x) => x,
        Err(_) => return Skip,
    };
    ensure!(spec.get_spec() == text && spec.raw_value() == text, "spec {} reads back as {}", short(&text), short(&spec.get_spec()));
    if !form.starts_with("==V") {
        let exact = matches!(form, "bare" | "==" | "@");
        ensure!(spec.is_exact() == exact, "spec {} says exact: {}", short(&text), spec.is_exact());
        ensure!(spec.exact_value() == if exact { Some(text.clone()) } else { None }, "spec {} has exact value {:?}", short(&text), spec.exact_value());
    }
    let (mut t, mut f) = (0, 0);
    let copy = spec.clone();
    for w in &case.a[2..] {
        let built = assembled(w);
        let text_too = built.is_none();
        let wv = match built.or_else(|| parse(w).ok()) {
            Some(x) => x,
            None => continue,
        };
        let want = match spec_truth(form, &ver, &wv, wv.as_str()) {
            Some(x) => x,
            None => continue,
        };
        let got = spec.test_match_version(&wv);
        ensure!(got == want, "spec {} on version {}: answered {}, its operator says {}", short(&text), short(w), got, want);
        ensure!(!text_too || spec.test_match(w) == want, "spec {} on text {}: answered {}, its operator says {}", short(&text), short(w), !want, want);
        ensure!(copy.test_match_version(&wv) == want, "a copy of spec {} answers otherwise on {}", short(&text), short(w));
        if want { t += 1 } else { f += 1 }
    }
    o.add("matches", t);
    o.add("rejections", f);
    o.hit(&format!("form {}", form));
    if t + f == 0 {
        return Skip;
    }
    if t > 0 && f > 0 { Held } else { Trivial }
}

// ---------------------------------------------------------------- C09..C11, C19 compound specs

pub fn ast_case(c: &Ctx, r: &mut Rng) -> (Ast, String, Vec<String>) {
    let o = Opt { long: false, ..SPEC };
    let k = r.range(2, 6);
    let near = cluster(r, c, o, k);
    let depth = match r.below(20) {
        0 => r.range(5, 40),
        1..=4 => 1,
        _ => r.range(2, 4),
    };
    let mut budget = if r.chance(5) { 120 } else { 16 };
    let mut a = ast(r, c, &near, depth, &mut budget);
    if r.chance(6) {
        // a deep alternating chain
        for i in 0..r.range(2, 40) {
            let n = r.pick(&near).clone();
            let l = Ast::L(leaf(r, c, &n));
            let pair = if r.chance(50) { vec![l, a] } else { vec![a, l] };
            a = if i % 2 == 0 { Ast::And(pair) } else { Ast::Or(pair) };
        }
    }
    if r.chance(4) && !c.real_specs.is_empty() {
        let t = r.pick(&c.real_specs).clone();
        let ors: Vec<Ast> = t.split('|').map(|p| Ast::And(p.split(',').map(|l| Ast::L(l.trim().to_string())).collect())).collect();
        if !t.contains('(') {
            return (Ast::Or(ors), t, near);
        }
    }
    if r.chance(3) {
        a = wide(r, c, &near[0]);
    } else if r.chance(3) {
        a = deep(r, c, &near[0]);
    }
    let sp = r.chance(40);
    let text = render(r, &a, sp);
    (a, text, near)
}

pub fn gen_compound(c: &Ctx, r: &mut Rng) -> Case {
    let (a, text, mut vs) = ast_case(c, r);
    if r.chance(10) {
        // a tree no text stands for: with parts that have no parts
        let a = hollow(r, a);
        let mut v = vec![serde_json::to_string(&a).unwrap(), r.below(1 << 30).to_string()];
        v.extend(vs);
        return Case::new("assembled", v);
    }
    let n = vs.len();
    for i in 0..n {
        let t = vs[i].clone();
        vs.push(twin(r, c, SPEC, &t));
    }
    let mut v = vec![serde_json::to_string(&a).unwrap(), text];
    v.extend(vs);
    Case::new("compound", v)
}

fn leaves<'a>(a: &'a Ast, out: &mut Vec<&'a str>) {
    match a {
        Ast::L(s) => out.push(s),
        Ast::And(v) | Ast::Or(v) => v.iter().for_each(|x| leaves(x, out)),
    }
}

fn truth(a: &Ast, f: &mut dyn FnMut(&str) -> bool) -> bool {
    match a {
        Ast::L(s) => f(s),
        // no short circuit needed, but harmless
        Ast::And(v) => v.iter().all(|x| truth(x, f)),
        Ast::Or(v) => v.iter().any(|x| truth(x, f)),
    }
}

fn tree_of(t: ConstraintTree) -> VersionSpecOrConstraintTree {
    VersionSpecOrConstraintTree::ConstraintTree(t)
}

fn hollow(r: &mut Rng, a: Ast) -> Ast {
    let below = |r: &mut Rng, v: Vec<Ast>| -> Vec<Ast> {
        let mut v: Vec<Ast> = v.into_iter().map(|x| hollow(r, x)).collect();
        if r.chance(20) {
            let k = r.below(v.len() + 1);
            v.insert(k, if r.chance(50) { Ast::And(vec![]) } else { Ast::Or(vec![]) });
        }
        if r.chance(10) {
            v.truncate(1);
        }
        v
    };
    match a {
        Ast::L(s) if r.chance(90) => Ast::L(s),
        Ast::L(_) => if r.chance(50) { Ast::And(vec![]) } else { Ast::Or(vec![]) },
        Ast::And(v) => Ast::And(below(r, v)),
        Ast::Or(v) => Ast::Or(below(r, v)),
    }
}

/// trees of one part under any connective in between
fn assemble(r: &mut Rng, a: &Ast) -> Result<VersionSpecOrConstraintTree, String> {
    let t = match a {
        Ast::L(s) => VersionSpecOrConstraintTree::try_from(s.as_str()).map_err(|e| format!("{}: {}", s, e))?,
        Ast::And(v) if v.is_empty() && r.chance(50) => tree_of(ConstraintTree::try_from(vec![","]).map_err(|e| e.to_string())?),
        Ast::Or(v) if v.is_empty() && r.chance(50) => tree_of(ConstraintTree::try_from(vec!["|"]).map_err(|e| e.to_string())?),
        Ast::And(v) => tree_of(ConstraintTree { combinator: Combinator::And, parts: v.iter().map(|x| assemble(r, x)).collect::<Result<_, _>>()? }),
        Ast::Or(v) => tree_of(ConstraintTree { combinator: Combinator::Or, parts: v.iter().map(|x| assemble(r, x)).collect::<Result<_, _>>()? }),
    };
    Ok(if r.chance(15) { tree_of(ConstraintTree { combinator: r.pick(&[Combinator::And, Combinator::Or, Combinator::None]).clone(), parts: vec![t] }) } else { t })
}

fn eval_assembled(case: &Case, o: &mut Obs) -> Verdict {
    let a: Ast = match serde_json::from_str(&case.a[0]) {
        Ok(a) => a,
        Err(_) => return Skip,
    };
    let mut r = Rng::new(&[case.a[1].parse().unwrap_or(0), 0xa55e]);
    let mut map: BTreeMap<String, VersionSpecOrConstraintTree> = BTreeMap::new();
    let mut ls = vec![];
    leaves(&a, &mut ls);
    for l in &ls {
        match VersionSpecOrConstraintTree::try_from(*l) {
            Ok(s) => map.insert(l.to_string(), s),
            Err(_) => return Skip,
        };
    }
    let t = match assemble(&mut r, &a) {
        Ok(t) => t,
        Err(e) => return Bad(format!("cannot be put together: {}", e)),
    };
    let copy = t.clone();
    let (mut yes, mut no) = (0, 0);
    for w in &case.a[2..] {
        let v = match parse(w) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let want = truth(&a, &mut |l| map[l].test_match_version(&v));
        if want { yes += 1 } else { no += 1 }
        ensure!(t.test_match_version(&v) == want, "the assembled tree {} on {}: answered {}, its parts combine to {}", short(&format!("{:?}", a)), short(w), !want, want);
        ensure!(copy.test_match(w) == want, "a copy of the assembled tree {} on text {}: answered {}, its parts combine to {}", short(&format!("{:?}", a)), short(w), !want, want);
    }
    o.add("assembled_matches", yes);
    o.add("assembled_rejections", no);
    o.add("empty_parts", empties(&a));
    if yes + no > 0 && !ls.is_empty() { Held } else { Trivial }
}

/// the text of a tree with every group in parentheses
fn plain(a: &Ast) -> String {
    let all = |v: &Vec<Ast>, op: &str| v.iter().map(|x| if matches!(x, Ast::L(_)) { plain(x) } else { format!("({})", plain(x)) }).collect::<Vec<_>>().join(op);
    match a {
        Ast::L(s) => s.clone(),
        Ast::And(v) => all(v, ","),
        Ast::Or(v) => all(v, "|"),
    }
}

pub fn build_tree(a: &Ast) -> Result<VersionSpecOrConstraintTree, String> {
    Ok(match a {
        Ast::L(s) => VersionSpecOrConstraintTree::try_from(s.as_str()).map_err(|e| format!("{}: {}", s, e))?,
        Ast::And(v) => tree_of(ConstraintTree { combinator: Combinator::And, parts: v.iter().map(build_tree).collect::<Result<_, _>>()? }),
        Ast::Or(v) => tree_of(ConstraintTree { combinator: Combinator::Or, parts: v.iter().map(build_tree).collect::<Result<_, _>>()? }),
    })
}

pub fn eval_compound(case: &Case, o: &mut Obs) -> Verdict {
    if case.kind == "assembled" {
        return eval_assembled(case, o);
    }
    let a: Ast = match serde_json::from_str(&case.a[0]) {
        Ok(a) => a,
        Err(_) => return Skip,
    };
    let text = &case.a[1];
    let mut ls = vec![];
    leaves(&a, &mut ls);
    let mut map: BTreeMap<String, VersionSpecOrConstraintTree> = BTreeMap::new();
    for l in &ls {
        if !map.contains_key(*l) {
            match VersionSpecOrConstraintTree::try_from(*l) {
                Ok(s) => {
                    map.insert(l.to_string(), s);
                }
                Err(_) => return Skip, // a single spec's own business
            }
        }
    }
    let x = match VersionSpecOrConstraintTree::try_from(text.as_str()) {
        Ok(x) => x,
        Err(e) => return Bad(format!("the spec {} is refused: {}", short(text), e)),
    };
    let t = match treeify(text) {
        Ok(t) => t,
        Err(e) => return Bad(format!("the spec {} cannot be made a tree: {}", short(text), e)),
    };
    let t = tree_of(t);
    // trees put together by the caller
    let built = build_tree(&a).ok();
    let list = match &a {
        Ast::And(v) | Ast::Or(v) if text.len() < 1500 => {
            let parts: Vec<String> = v.iter().map(plain).collect();
            let mut w = vec![if matches!(a, Ast::And(_)) { "," } else { "|" }];
            w.extend(parts.iter().map(|s| s.as_str()));
            match ConstraintTree::try_from(w) {
                Ok(t) => Some(tree_of(t)),
                Err(e) => return Bad(format!("the list of specs {:?} is refused: {}", ls, e)),
            }
        }
        _ => None,
    };
    if canon(&a) != Ast::L(ls[0].to_string()) {
        ensure!(!x.is_exact(), "the compound spec {} says it is exact", short(text));
    }
    let mut mixed = false;
    for w in &case.a[2..] {
        let v = match parse(w) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let tr: BTreeMap<&str, bool> = map.iter().map(|(k, s)| (k.as_str(), s.test_match_version(&v))).collect();
        let want = truth(&a, &mut |l| tr[l]);
        mixed |= tr.values().any(|x| *x) && tr.values().any(|x| !*x);
        o.hit(if want { "matches" } else { "rejections" });
        ensure!(x.test_match_version(&v) == want, "{} on {}: answered {}, its parts {:?} combine to {}", short(text), short(w), !want, tr, want);
        ensure!(x.test_match(w) == want, "{} on text {}: answered {}, its parts combine to {}", short(text), short(w), !want, want);
        ensure!(t.test_match_version(&v) == want, "tree of {} on {}: answered {}, its parts {:?} combine to {}", short(text), short(w), !want, tr, want);
        for (what, y) in [("assembled tree", &built), ("tree from a list", &list)] {
            if let Some(y) = y {
                ensure!(y.test_match_version(&v) == want, "{} of {} on {}: answered {}, its parts combine to {}", what, short(text), short(w), !want, want);
            }
        }
    }
    o.add("leaves", ls.len() as u64);
    o.hit(match ls.len() {
        1 => "specs_of_1_leaf",
        2..=4 => "specs_of_2_to_4_leaves",
        5..=16 => "specs_of_5_to_16_leaves",
        _ => "specs_of_17_or_more_leaves",
    });
    if mixed { Held } else { Trivial }
}

/// C11: structure, flattening and the way back to text
pub fn gen_tree(c: &Ctx, r: &mut Rng) -> Case {
    let (a, text, near) = ast_case(c, r);
    if r.chance(6) {
        // as a caller may put it together: groups of one part, with or without parts that have no parts
        let a = if r.chance(60) { hollow(r, a) } else { a };
        let mut v = vec![serde_json::to_string(&a).unwrap(), r.below(1 << 30).to_string()];
        v.extend(near);
        return Case::new("assembled", v);
    }
    let mut v = vec![serde_json::to_string(&a).unwrap(), text];
    v.extend(near.into_iter().take(3));
    Case::new("tree", v)
}

fn structure(x: &VersionSpecOrConstraintTree) -> Result<Ast, String> {
    Ok(match x {
        VersionSpecOrConstraintTree::VersionSpec(s) => Ast::L(s.get_spec()),
        VersionSpecOrConstraintTree::ConstraintTree(t) => {
            let v: Vec<Ast> = t.parts.iter().map(structure).collect::<Result<_, _>>()?;
            match t.combinator {
                Combinator::And => Ast::And(v),
                Combinator::Or => Ast::Or(v),
                Combinator::None => {
                    if v.len() != 1 {
                        return Err(format!("a tree without combinator has {} parts", v.len()));
                    }
                    v.into_iter().next().unwrap()
                }
            }
        }
    })
}

fn empties(a: &Ast) -> u64 {
    match a {
        Ast::L(_) => 0,
        Ast::And(v) | Ast::Or(v) => v.is_empty() as u64 + v.iter().map(empties).sum::<u64>(),
    }
}

/// what is written for a tree put together by a caller stands for that tree; one with a part that
/// has no parts, for which there is no text, may be refused
fn eval_written(case: &Case, o: &mut Obs) -> Verdict {
    let a: Ast = match serde_json::from_str(&case.a[0]) {
        Ok(a) => a,
        Err(_) => return Skip,
    };
    let mut ls = vec![];
    leaves(&a, &mut ls);
    if ls.iter().any(|l| VersionSpecOrConstraintTree::try_from(*l).is_err()) {
        return Skip;
    }
    let mut r = Rng::new(&[case.a[1].parse().unwrap_or(0), 0xa55e]);
    let t = match assemble(&mut r, &a) {
        Ok(t) => t,
        Err(e) => return Bad(format!("cannot be put together: {}", e)),
    };
    let shown = short(&format!("{:?}", a));
    let text = match untreeify(&t) {
        Ok(s) => s,
        Err(_) if empties(&a) > 0 => {
            o.hit("empty_part_refused");
            return Held;
        }
        Err(e) => return Bad(format!("the assembled tree {} cannot be written out: {}", shown, e)),
    };
    let again = match treeify(&text) {
        Ok(t) => tree_of(t),
        Err(e) => return Bad(format!("the assembled tree {} is written out as {}, which is refused: {}", shown, short(&text), e)),
    };
    if empties(&a) == 0 {
        match structure(&again) {
            Ok(s) if s == canon(&a) => {}
            s => return Bad(format!("the assembled tree {} is written out as {}, which reads back as {}", shown, short(&text), short(&format!("{:?}", s)))),
        }
    }
    for w in &case.a[2..] {
        if let Ok(v) = parse(w) {
            ensure!(t.test_match_version(&v) == again.test_match_version(&v), "the assembled tree {} and its written form {} disagree on {}", shown, short(&text), short(w));
        }
    }
    o.hit("assembled_written");
    Held
}

pub fn eval_tree(case: &Case, o: &mut Obs) -> Verdict {
    if case.kind == "assembled" {
        return eval_written(case, o);
    }
    let a: Ast = match serde_json::from_str(&case.a[0]) {
        Ok(a) => a,
        Err(_) => return Skip,
    };
    let mut ls = vec![];
    leaves(&a, &mut ls);
    for l in &ls {
        if VersionSpecOrConstraintTree::try_from(*l).is_err() {
            return Skip;
        }
    }
    let text = &case.a[1];
    let want = canon(&a);
    let t = match treeify(text) {
        Ok(t) => tree_of(t),
        Err(e) => return Bad(format!("the spec {} cannot be made a tree: {}", short(text), e)),
    };
    let x = match VersionSpecOrConstraintTree::try_from(text.as_str()) {
        Ok(x) => x,
        Err(e) => return Bad(format!("the spec {} is refused: {}", short(text), e)),
    };
    let built = match build_tree(&a) {
        Ok(t) => t,
        Err(_) => return Skip,
    };
    for (what, y) in [("treeify", &t), ("parsing", &x)] {
        let s = match structure(y) {
            Ok(s) => s,
            Err(e) => return Bad(format!("{} {}: {}", what, short(text), e)),
        };
        if let Ast::L(l) = &want {
            // a group of one part is that part
            let part = VersionSpecOrConstraintTree::try_from(l.as_str());
            ensure!(what == "treeify" || part.as_ref() == Ok(y), "parsing {} gives {:?} instead of its one part {}", short(text), y, short(l));
        }
        ensure!(s == want, "{} {} gives {}, expected {}", what, short(text), short(&format!("{:?}", s)), short(&format!("{:?}", want)));
    }
    for (what, y) in [("treeify", &t), ("parsing", &x), ("assembling", &built)] {
        let text2 = match untreeify(y) {
            Ok(s) => s,
            Err(e) => return Bad(format!("the tree from {} {} cannot be written out: {}", what, short(text), e)),
        };
        for (name, said) in [("its spec", y.get_spec()), ("its raw value", y.raw_value())] {
            if said != text2 {
                let back = treeify(&said).map(tree_of).and_then(|t| structure(&t));
                ensure!(back.as_ref() == Ok(&want), "{} {}: {} is {}, which reads back as {:?}", what, short(text), name, short(&said), back);
            }
        }
        let again = match treeify(&text2) {
            Ok(t) => tree_of(t),
            Err(e) => return Bad(format!("{} {}: written out as {}, which is refused: {}", what, short(text), short(&text2), e)),
        };
        match structure(&again) {
            Ok(s) if s == want => {}
            Ok(s) => return Bad(format!("{} {}: written out as {}, which reads back as {} instead of {}", what, short(text), short(&text2), short(&format!("{:?}", s)), short(&format!("{:?}", want)))),
            Err(e) => return Bad(format!("{} {}: {}", what, short(&text2), e)),
        }
        if what != "assembling" {
            ensure!(untreeify(&again).as_ref() == Ok(&text2), "writing {} out twice gives {} and {:?}", short(text), short(&text2), untreeify(&again));
            if what == "treeify" {
                ensure!(again == *y, "{} written out as {} reads back as a different tree", short(text), short(&text2));
            }
        }
        for w in &case.a[2..] {
            if let Ok(v) = parse(w) {
                ensure!(y.test_match_version(&v) == again.test_match_version(&v), "{} and its written form {} disagree on {}", short(text), short(&text2), short(w));
            }
        }
    }
    o.add("leaves", ls.len() as u64);
    o.hit(match &want {
        Ast::L(_) => "single",
        Ast::And(_) => "and_at_top",
        Ast::Or(_) => "or_at_top",
    });
    if matches!(want, Ast::L(_)) { Trivial } else { Held }
}

// C10: which texts are well formed

const TOK: [&str; 5] = ["1.0", ",", "|", "(", ")"];

/// own recogniser of the grammar: or := and ('|' and)*; and := atom (',' atom)*; atom := leaf | '(' or ')'
fn rec_or(t: &[u8], i: &mut usize) -> Option<Ast> {
    let mut v = vec![rec_and(t, i)?];
    while *i < t.len() && t[*i] == 2 {
        *i += 1;
        v.push(rec_and(t, i)?);
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { Ast::Or(v) })
}
fn rec_and(t: &[u8], i: &mut usize) -> Option<Ast> {
    let mut v = vec![rec_atom(t, i)?];
    while *i < t.len() && t[*i] == 1 {
        *i += 1;
        v.push(rec_atom(t, i)?);
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { Ast::And(v) })
}
fn rec_atom(t: &[u8], i: &mut usize) -> Option<Ast> {
    match t.get(*i) {
        Some(0) => {
            *i += 1;
            Some(Ast::L(String::new()))
        }
        Some(3) => {
            *i += 1;
            let a = rec_or(t, i)?;
            if t.get(*i) == Some(&4) {
                *i += 1;
                Some(a)
            } else {
                None
            }
        }
        _ => None,
    }
}

pub fn gen_tokens(c: &Ctx, r: &mut Rng) -> Case {
    let mut toks: Vec<u8>;
    if r.chance(70) {
        // a well formed one, then a small edit
        let (a, _, _) = ast_case(c, r);
        toks = vec![];
        fn put(a: &Ast, top: bool, r: &mut Rng, out: &mut Vec<u8>) {
            match a {
                Ast::L(_) => out.push(0),
                Ast::And(v) | Ast::Or(v) => {
                    let op = if matches!(a, Ast::And(_)) { 1 } else { 2 };
                    if !top {
                        out.push(3)
                    }
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            out.push(op)
                        }
                        put(x, false, r, out)
                    }
                    if !top {
                        out.push(4)
                    }
                }
            }
        }
        put(&a, true, r, &mut toks);
        if r.chance(85) {
            let i = r.below(toks.len());
            match r.below(4) {
                0 => {
                    toks.remove(i);
                }
                1 => toks.insert(i, r.range(1, 4) as u8),
                2 => toks[i] = r.below(5) as u8,
                _ => {
                    let j = r.below(toks.len());
                    toks.swap(i, j)
                }
            }
        }
    } else {
        toks = (0..r.range(1, 14)).map(|_| r.below(5) as u8).collect();
    }
    // two leaves side by side would merge into one text: keep them apart by an operator
    toks.dedup_by(|x, y| *x == 0 && *y == 0);
    let spaces = r.chance(30);
    let text_of = |r: &mut Rng| -> String {
        let mut s = String::new();
        for t in &toks {
            if spaces && r.chance(30) {
                s.push_str(r.pick(&[" ", "\t", "  "]));
            }
            if *t == 0 {
                let n = version(r, c, Opt { long: false, ..SPEC });
                s.push_str(&leaf(r, c, &n));
            } else {
                s.push_str(TOK[*t as usize]);
            }
        }
        s
    };
    let text = text_of(r);
    let code: String = toks.iter().map(|t| (b'0' + t) as char).collect();
    if r.chance(15) {
        // well formed around a spec that is not one
        let bad = *r.pick(&["===1.0", "><1.0", "~1.0", "!1.0", "<", ">=", ">=1.0 <2.0", "==1.0 ==1.0", ">=1.0\t!=2.0", ">1.0 x", "~=1.0 1.1", "!!1", "1!2!3", "1+2+3", "=<1.0", "~=1.0.*", "a!1", "==", "==1!2!3", ">=1+2+3", "^1.0", "1.0$", "^[1$", "99999!1"]);
        let toks2: Vec<u8> = { let n = r.range(2, 5); (0..2 * n - 1).map(|i| if i % 2 == 0 { 0 } else { r.range(1, 2) as u8 }).collect() };
        let k = r.below(toks2.len() / 2 + 1);
        let mut s = String::new();
        let mut seen = 0;
        let paren = r.chance(30);
        for t in &toks2 {
            if *t == 0 {
                if seen == k {
                    if paren { s.push_str(&format!("({})", bad)) } else { s.push_str(bad) }
                } else {
                    s.push_str("1.0");
                }
                seen += 1;
            } else {
                s.push_str(TOK[*t as usize]);
            }
        }
        return Case::new("badleaf", vec![s, bad.into()]);
    }
    Case::new("tokens", vec![text, code])
}

pub fn enum_tokens(thorough: bool) -> Vec<Case> {
    let max = if thorough { 8 } else { 7 };
    let mut v = vec![];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for t in &last {
            for k in 0..5u8 {
                if k == 0 && t.last() == Some(&0) {
                    continue;
                }
                let mut u = t.clone();
                u.push(k);
                next.push(u);
            }
        }
        for t in &next {
            let s: String = t.iter().map(|k| TOK[*k as usize]).collect();
            v.push(Case::new("tokens", vec![s, t.iter().map(|k| (b'0' + k) as char).collect()]));
        }
        last = next;
    }
    v.push(Case::new("tokens", vec!["()".into(), "34".into()]));
    v
}

pub fn eval_tokens(case: &Case, o: &mut Obs) -> Verdict {
    let text = &case.a[0];
    let got = treeify(text);
    let got2 = VersionSpecOrConstraintTree::try_from(text.as_str());
    if case.kind == "badleaf" {
        if case.a[1] != "^1.0" || !text.contains('$') {
            ensure!(got.is_err(), "{} is accepted although {} is no spec", short(text), short(&case.a[1]));
            ensure!(got2.is_err(), "{} is accepted as a spec although {} is none", short(text), short(&case.a[1]));
        }
        o.hit("bad_leaf_refused");
        return Held;
    }
    let toks: Vec<u8> = case.a[1].bytes().map(|b| b - b'0').collect();
    let mut i = 0;
    let ok = rec_or(&toks, &mut i).is_some() && i == toks.len();
    ensure!(got.is_ok() == ok, "{} is {} by treeify", short(text), if got.is_ok() { "accepted although malformed" } else { "refused although well formed" });
    // without any delimiter it is a single spec
    if toks.len() > 1 {
        ensure!(got2.is_ok() == ok, "{} is {} as a spec", short(text), if got2.is_ok() { "accepted although malformed" } else { "refused although well formed" });
    }
    o.hit(if ok { "well_formed" } else { "malformed" });
    if toks.len() > 1 { Held } else { Trivial }
}

// ---------------------------------------------------------------- C12 regular expressions and globs

pub fn gen_pattern(c: &Ctx, r: &mut Rng) -> Case {
    if r.chance(50) {
        let p = glob_pattern(r, c);
        let mut a = vec![p.clone()];
        for _ in 0..r.range(2, 7) {
            let x = glob_instance(r, c, &p);
            a.push(if r.chance(85) { x } else { version(r, c, PLAIN) });
        }
        Case::new("glob", a)
    } else {
        let base = version(r, c, Opt { long: false, ..SPEC });
        let x = if r.chance(50) { rx_from(r, &base) } else { rx(r, 4) };
        let mut bs = vec![x];
        if r.chance(8) {
            for _ in 0..r.range(1, 2) {
                bs.push(rx(r, 2));
            }
        }
        let mut a = vec![serde_json::to_string(&bs).unwrap()];
        for _ in 0..r.range(2, 7) {
            let mut s = String::new();
            let x = r.below(bs.len());
            rx_instance(r, &bs[x], &mut s);
            a.push(match r.below(6) {
                0 => base.clone(),
                1 => twin(r, c, Opt { uni: Uni::Safe, spec: false, long: false }, &s),
                2 => format!("{}{}", s, r.pick(&["0", ".1", "a", ".", "\n", " "])),
                3 => format!("{}{}", r.pick(&["0", "1.", "a", ".", "\n", " "]), s),
                4 if r.chance(30) => flip_case(r, &s),
                _ => s,
            });
        }
        Case::new("regex", a)
    }
}

pub fn eval_pattern(case: &Case, o: &mut Obs) -> Verdict {
    let (text, f): (String, Box<dyn Fn(&str) -> bool>) = if case.kind == "glob" {
        let p: Vec<char> = case.a[0].chars().collect();
        (case.a[0].clone(), Box::new(move |s: &str| model::glob(&p, &s.chars().collect::<Vec<_>>())))
    } else {
        let mut bs: Vec<Rx> = match serde_json::from_str(&case.a[0]) {
            Ok(x) => x,
            Err(_) => return Skip,
        };
        let t = match bs.len() {
            0 => return Skip,
            1 => rx_text(&bs[0]),
            _ => rx_open(&bs),
        };
        if t.len() > 3000 {
            return Skip;
        }
        if bs.len() == 1 {
            let x = bs.remove(0);
            (t, Box::new(move |s: &str| x.full_match(s)))
        } else {
            o.add("open_alternations", 1);
            let k = bs.len() - 1;
            (t, Box::new(move |s: &str| bs.iter().enumerate().any(|(i, x)| x.find(s, i == 0, i == k))))
        }
    };
    // a glob with delimiters in it can only be given where a single spec is expected
    let parsed = if case.kind == "glob" && text.contains(&['(', ')', '|', ',', '^', '$'][..]) {
        if text.is_empty() || text.starts_with(&['!', '=', '<', '>', '~', '^'][..]) || text.ends_with('$') {
            return Skip;
        }
        VersionSpec::try_from(text.as_str()).map(VersionSpecOrConstraintTree::VersionSpec)
    } else {
        VersionSpecOrConstraintTree::try_from(text.as_str())
    };
    let spec = match parsed {
        Ok(s) => s,
        Err(e) => return Bad(format!("the {} spec {} is refused: {}", case.kind, short(&text), e)),
    };
    ensure!(!spec.is_exact(), "the {} spec {} says it is exact", case.kind, short(&text));
    let (mut t, mut n) = (0, 0);
    for w in &case.a[1..] {
        if w.chars().count() > 300 {
            continue;
        }
        let v = match parse(w) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let want = f(w);
        ensure!(spec.test_match_version(&v) == want, "{} spec {} on {}: answered {}, expected {}", case.kind, short(&text), short(w), !want, want);
        ensure!(spec.test_match(w) == want, "{} spec {} on text {}: answered {}, expected {}", case.kind, short(&text), short(w), !want, want);
        if want { t += 1 } else { n += 1 }
    }
    o.add(&format!("{}_matches", case.kind), t);
    o.add(&format!("{}_rejections", case.kind), n);
    if t + n == 0 {
        return Skip;
    }
    if t > 0 && n > 0 { Held } else { Trivial }
}

// ---------------------------------------------------------------- C13 compatible release

pub fn gen_compat(c: &Ctx, r: &mut Rng) -> Case {
    let o = Opt { long: false, ..SPEC };
    let n = match r.below(12) {
        0 => 1,
        1 => r.range(5, 12),
        2 if r.chance(20) => r.range(12, 80),
        _ => r.range(2, 4),
    };
    let mut rel: Vec<String> = (0..n).map(|_| number(r, c)).collect();
    let mut base = String::new();
    if r.chance(15) {
        base = format!("{}!", r.below(3));
    }
    let epoch = base.clone();
    base.push_str(&rel.join("."));
    let r0 = base.clone();
    match r.below(8) {
        0 => base.push_str(r.pick(&["a1", ".dev1", "rc2", ".post3", "b", "+x.1", ".post1.dev2", "a.1.2"])),
        1 => base = version(r, c, o),
        _ => {}
    }
    let mut a = vec![base.clone()];
    for _ in 0..r.range(2, 8) {
        let w = match r.below(10) {
            0..=2 => {
                // another last place
                let k = rel.len() - 1;
                let old = rel[k].clone();
                rel[k] = number(r, c);
                let s = format!("{}{}", epoch, rel.join("."));
                rel[k] = old;
                if r.chance(50) { format!("{}.{}", s, number(r, c)) } else { s }
            }
            3 => {
                // another place inside the series
                let k = r.below(rel.len());
                let old = rel[k].clone();
                rel[k] = int_value(r, c).to_string();
                let s = format!("{}{}", epoch, rel.join("."));
                rel[k] = old;
                s
            }
            4 => {
                let k = rel.len() - 1;
                let old = rel[k].clone();
                let up: u64 = old.parse::<u64>().unwrap_or(3).min(i64::MAX as u64 - 1) + 1;
                rel[k] = up.to_string();
                let s = format!("{}{}{}", epoch, rel.join("."), r.pick(&["", "", ".dev1", "a1", "+l", ".post1"]));
                rel[k] = old;
                s
            }
            5 => {
                if rel.len() > 1 {
                    let k = rel.len() - 2;
                    let old = rel[k].clone();
                    let up: u64 = old.parse::<u64>().unwrap_or(3).min(i64::MAX as u64 - 1) + 1;
                    rel[k] = up.to_string();
                    let s = format!("{}{}", epoch, rel.join("."));
                    rel[k] = old;
                    s
                } else {
                    r0.clone()
                }
            }
            6 => format!("{}{}", r0, r.pick(&[".0", ".1", "a1", ".dev0", ".post1", "+a"])),
            7 => base.clone(),
            8 => format!("{}!{}", r.below(3), r0.rsplit('!').next().unwrap_or("1")),
            _ => twin(r, c, o, &base),
        };
        a.push(spec_text(&w));
    }
    Case::new("compat", a)
}

pub fn eval_compat(case: &Case, o: &mut Obs) -> Verdict {
    if !case.a.iter().all(|s| modelled(s)) {
        return Skip;
    }
    let rt = &case.a[0];
    let (rm, rv) = match (model::tokenise(rt), parse(rt)) {
        (Ok(m), Ok(v)) => (m, v),
        _ => return Skip,
    };
    let spec = match VersionSpecOrConstraintTree::try_from(format!("~={}", rt).as_str()) {
        Ok(s) => s,
        Err(e) => return Bad(format!("the spec ~={} is refused: {}", rt, e)),
    };
    let (mut t, mut n) = (0, 0);
    for w in &case.a[1..] {
        let (wm, wv) = match (model::tokenise(w), parse(w)) {
            (Ok(m), Ok(v)) => (m, v),
            _ => continue,
        };
        let want = match model::compatible(&wm, &rm) {
            Some(x) => x,
            None => continue,
        };
        for (how, got) in [
            ("operator by version", wv.compare_to_version(&rv, &CompOp::Compatible)),
            ("operator by text", wv.compare_to_str(rt, &CompOp::Compatible)),
            ("inverse operator", !wv.compare_to_version(&rv, &CompOp::Incompatible)),
            ("spec", spec.test_match_version(&wv)),
        ] {
            ensure!(got == want, "{} compatible with {}: {} answers {}, expected {}", short(w), short(rt), how, got, want);
        }
        if want { t += 1 } else { n += 1 }
    }
    o.add("compatible", t);
    o.add("incompatible", n);
    if t + n == 0 {
        return Skip;
    }
    if t > 0 && n > 0 { Held } else { Trivial }
}

pub fn enum_compat() -> Vec<Case> {
    let vs = component_versions(&["0", "1", "2", "10", "a", "post"], 3, &[""], &["", "1!"]);
    let mut rs = component_versions(&["0", "1", "2", "10"], 3, &[""], &["", "1!"]);
    rs.extend(["1.0a", "1.a", "1.0.post1", "1.2.dev", "a", "1.0+x"].iter().map(|s| s.to_string()));
    let mut out = vec![];
    for r in rs {
        for chunk in vs.chunks(60) {
            let mut a = vec![r.clone()];
            a.extend(chunk.iter().cloned());
            out.push(Case::new("compat", a));
        }
    }
    out
}

// ---------------------------------------------------------------- C19 equality and copies

pub fn gen_equal(c: &Ctx, r: &mut Rng) -> Case {
    let (a, _, near) = ast_case(c, r);
    let mut b = a.clone();
    // one structural edit, or none
    if r.chance(80) {
        fn edit(x: &mut Ast, r: &mut Rng, c: &Ctx, near: &[String]) {
            match x {
                Ast::L(s) => {
                    let n = r.pick(near).clone();
                    *s = if r.chance(50) { leaf(r, c, &n) } else { format!("{}0", s.trim_end_matches(['$', '*'])) };
                    if VersionSpecOrConstraintTree::try_from(s.as_str()).is_err() {
                        *s = "1.0".into();
                    }
                }
                Ast::And(v) | Ast::Or(v) => {
                    let k = r.below(v.len() + 3);
                    if k < v.len() {
                        edit(&mut v[k], r, c, near)
                    } else {
                        match r.below(5) {
                            0 => v.push(Ast::L("1.0".into())),
                            1 if v.len() > 1 => {
                                v.pop();
                            }
                            2 if v.len() > 1 => {
                                let i = r.below(v.len());
                                let j = r.below(v.len());
                                v.swap(i, j)
                            }
                            3 => {
                                let w = std::mem::take(v);
                                let was_and = matches!(x, Ast::And(_));
                                *x = if was_and { Ast::Or(w) } else { Ast::And(w) };
                            }
                            _ => {
                                let w = std::mem::take(v);
                                let was_and = matches!(x, Ast::And(_));
                                let inner = if was_and { Ast::And(w) } else { Ast::Or(w) };
                                *x = if r.chance(50) { Ast::And(vec![inner]) } else { Ast::Or(vec![inner]) };
                            }
                        }
                    }
                }
            }
        }
        edit(&mut b, r, c, &near);
    }
    let mut v = vec![serde_json::to_string(&a).unwrap(), serde_json::to_string(&b).unwrap()];
    v.extend(near);
    Case::new("equal", v)
}

pub fn eval_equal(case: &Case, o: &mut Obs) -> Verdict {
    let (a, b): (Ast, Ast) = match (serde_json::from_str(&case.a[0]), serde_json::from_str(&case.a[1])) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Skip,
    };
    let (x, y) = match (build_tree(&a), build_tree(&b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Skip,
    };
    let want = a == b;
    ensure!((x == y) == want && (y == x) == want, "{:?} and {:?}: equal is answered {}/{}, their texts and combinators say {}", a, b, x == y, y == x, want);
    ensure!((x != y) == !want, "{:?} and {:?}: != contradicts ==", a, b);
    if let (VersionSpecOrConstraintTree::ConstraintTree(s), VersionSpecOrConstraintTree::ConstraintTree(t)) = (&x, &y) {
        ensure!((s == t) == want, "{:?} and {:?}: the trees compare {}, expected {}", a, b, s == t, want);
    }
    let cx = x.clone();
    ensure!(cx == x, "{:?} differs from its copy", a);
    ensure!(format!("{:?}", cx) == format!("{:?}", x) && cx.get_spec() == x.get_spec() && cx.is_exact() == x.is_exact(), "{:?} and its copy describe themselves differently", a);
    let all = [Combinator::And, Combinator::Or, Combinator::None];
    for (i, p) in all.iter().enumerate() {
        for (j, q) in all.iter().enumerate() {
            ensure!((p == q) == (i == j) && (p != q) == (i != j), "connectives {:?} and {:?}: equal is answered {}", p, q, p == q);
            let one = |k: &Combinator, z: &VersionSpecOrConstraintTree| ConstraintTree { combinator: k.clone(), parts: vec![z.clone()] };
            let (s, t) = (one(p, &x), one(q, &y));
            ensure!((s == t) == (i == j && want), "{:?} alone under {:?} and {:?} alone under {:?}: equal is answered {}", a, p, b, q, s == t);
            let copy = s.clone();
            ensure!(copy == s && copy.combinator == s.combinator, "{:?} alone under {:?} differs from its copy", a, p);
            let (s, t) = (tree_of(s), tree_of(t));
            ensure!((s == t) == (i == j && want), "{:?} alone under {:?} and {:?} alone under {:?}: equal is answered {} when wrapped", a, p, b, q, s == t);
            ensure!(s != x || matches!(&a, Ast::And(_) | Ast::Or(_)), "{:?} equals the tree around it", a);
        }
    }
    let mut n = 0;
    for w in &case.a[2..] {
        if let Ok(v) = parse(w) {
            n += 1;
            ensure!(cx.test_match_version(&v) == x.test_match_version(&v), "{:?} and its copy disagree on {}", a, short(w));
            if want {
                ensure!(y.test_match_version(&v) == x.test_match_version(&v), "two equal specs {:?} disagree on {}", a, short(w));
            }
        }
    }
    ensure!(untreeify(&cx) == untreeify(&x), "{:?} and its copy are written differently", a);
    o.add("matches_compared", n);
    o.hit(if want { "equal" } else { "unequal" });
    Held
}

// ---------------------------------------------------------------- C20 spellings

pub fn gen_spelling(c: &Ctx, r: &mut Rng) -> Case {
    let o = Opt { uni: if r.chance(80) { Uni::Ascii } else { Uni::Safe }, spec: false, long: r.chance(70) };
    let v = version(r, c, o);
    let (body, tail) = match v.find('+') {
        Some(i) => (v[..i].to_string(), v[i..].to_string()),
        None => (v.clone(), String::new()),
    };
    let (ep, body) = match body.find('!') {
        Some(i) => (body[..=i].to_string(), body[i + 1..].to_string()),
        None => (String::new(), body),
    };
    let mut a = vec![v.clone()];
    let respell = |r: &mut Rng| -> String {
        let cs: Vec<char> = body.chars().collect();
        let mut s = String::new();
        let kinds = [r.chance(50), r.chance(50), r.chance(50), r.chance(50), r.chance(25)];
        for (i, ch) in cs.iter().enumerate() {
            let is_sep = |c: char| matches!(c, '.' | '_' | '-');
            let prev = if i > 0 { Some(cs[i - 1]) } else { None };
            if is_sep(*ch) {
                s.push(if kinds[0] { sep(r) } else { *ch });
                if kinds[4] && r.chance(20) {
                    s.push(sep(r));
                }
            } else {
                let starts_num = ch.is_ascii_digit() && !prev.map_or(false, |p| p.is_ascii_digit());
                let boundary = prev.map_or(false, |p| !is_sep(p) && p.is_ascii_digit() != ch.is_ascii_digit());
                if boundary && kinds[3] && r.chance(50) {
                    s.push(sep(r));
                }
                if starts_num && kinds[1] && r.chance(30) {
                    s.push_str(&"0".repeat(r.range(1, 3)));
                }
                if kinds[2] && ch.is_alphabetic() && r.chance(50) {
                    if ch.is_lowercase() { s.extend(ch.to_uppercase()) } else { s.extend(ch.to_lowercase()) }
                } else {
                    s.push(*ch);
                }
            }
        }
        if tail.is_empty() && !body.trim_matches(|c| matches!(c, '.' | '_' | '-')).is_empty() && r.chance(40) {
            for _ in 0..r.range(1, 5) {
                s.push(sep(r));
                s.push('0');
            }
        }
        format!("{}{}{}", ep, s, tail)
    };
    for _ in 0..r.range(1, 4) {
        a.push(respell(r));
    }
    a.push(twin(r, c, o, &v)); // an outsider every spelling has to treat alike
    Case::new("spelling", a)
}

pub fn eval_spelling(case: &Case, o: &mut Obs) -> Verdict {
    if case.a[..case.a.len() - 1].iter().any(|s| !modelled(s)) {
        return Skip;
    }
    let mut vs = vec![];
    for s in &case.a {
        match parse(s) {
            Ok(v) => vs.push(v),
            Err(_) => {
                if model::tokenise(s).is_ok() {
                    return Bad(format!("{} is refused", short(s)));
                }
                return Skip;
            }
        }
    }
    let out = vs.pop().unwrap();
    let mut differs = false;
    for w in &vs[1..] {
        differs |= w.as_str() != vs[0].as_str();
        ensure!(three(&vs[0], w) == Some(Ordering::Equal) && vs[0] == *w, "{} and {} are two spellings of one version but compare {:?}", short(vs[0].as_str()), short(w.as_str()), vs[0].compare_version(w));
        ensure!(three(&vs[0], &out) == three(w, &out), "{} and {} are two spellings of one version but compare differently with {}", short(vs[0].as_str()), short(w.as_str()), short(out.as_str()));
        o.hit("spellings_compared");
    }
    o.hit(ord_name(three(&vs[0], &out).unwrap_or(Ordering::Equal)));
    if differs { Held } else { Trivial }
}

// ---------------------------------------------------------------- C21 ranges

pub fn gen_range(c: &Ctx, r: &mut Rng) -> Case {
    let o = Opt { long: r.chance(20), ..SPEC };
    let n = r.range(8, 26);
    Case::new("range", cluster(r, c, o, n))
}

pub fn eval_range(case: &Case, o: &mut Obs) -> Verdict {
    let mut vs: Vec<Version> = case.a.iter().filter_map(|s| parse(s).ok()).collect();
    if vs.len() < 3 {
        return Skip;
    }
    let mut bad = false;
    let bounds: Vec<Version> = vs.iter().take(2).cloned().collect();
    vs.sort_by(|a, b| a.partial_cmp(b).unwrap_or_else(|| { bad = true; Ordering::Equal }));
    ensure!(!bad, "the versions {:?} cannot be sorted", case.a);
    let (lo, hi) = if bounds[0] <= bounds[1] { (&bounds[0], &bounds[1]) } else { (&bounds[1], &bounds[0]) };
    let mk = |t: String| VersionSpecOrConstraintTree::try_from(t.as_str()).map_err(|e| format!("the spec {} is refused: {}", short(&t), e));
    let accepted = |t: String| -> Result<(Vec<bool>, String), String> {
        let s = mk(t.clone())?;
        Ok((vs.iter().map(|v| s.test_match_version(v)).collect(), t))
    };
    let mut nontrivial = false;
    for b in [lo, hi] {
        let mut sets = BTreeMap::new();
        for op in ["<", "<=", ">", ">=", "==", "!="] {
            let (m, t) = match accepted(format!("{}{}", op, b.as_str())) {
                Ok(x) => x,
                Err(e) => return Bad(e),
            };
            // neighbours that compare equal are treated alike; one change of mind along the order
            let mut changes = 0;
            for i in 1..m.len() {
                if m[i] != m[i - 1] {
                    changes += 1;
                    ensure!(vs[i - 1] < vs[i], "{} tells {} and {} apart, which compare equal", short(&t), short(vs[i - 1].as_str()), short(vs[i].as_str()));
                }
            }
            if op == "<" || op == "<=" {
                ensure!(changes <= 1 && (changes == 0 || m[0]), "{} does not select the low end of the order", short(&t));
            } else if op == ">" || op == ">=" {
                ensure!(changes <= 1 && (changes == 0 || !m[0]), "{} does not select the high end of the order", short(&t));
            }
            nontrivial |= changes > 0;
            o.add("selected", m.iter().filter(|x| **x).count() as u64);
            o.add("left_out", m.iter().filter(|x| !**x).count() as u64);
            sets.insert(op, m);
        }
        for i in 0..vs.len() {
            let g = |k: &str| sets[k][i];
            ensure!(g("<") as u8 + g("==") as u8 + g(">") as u8 == 1, "{} is not exactly one of <, ==, > {}", short(vs[i].as_str()), short(b.as_str()));
            ensure!(g("<=") == (g("<") || g("==")) && g(">=") == (g(">") || g("==")) && g("!=") != g("=="), "the specs on {} contradict each other for {}", short(b.as_str()), short(vs[i].as_str()));
        }
    }
    // pairs of bounds: the usual ranges, and any two operators on any two (perhaps equal) bounds
    let mut pairs = vec![(">=", lo, ",", "<", hi), (">", lo, ",", "<=", hi), ("<", lo, "|", ">", hi)];
    let mut h = Rng::new(&[crate::hash_case(case)]);
    for _ in 0..5 {
        const OPS: &[&str] = &["<", "<=", ">", ">=", "==", "!=", ""];
        let (x, y) = if h.chance(35) { (&bounds[0], &bounds[0]) } else { (&vs[h.below(vs.len())], &vs[h.below(vs.len())]) };
        pairs.push((*h.pick(OPS), x, *h.pick(&[",", "|"]), *h.pick(OPS), y));
    }
    let holds = |op: &str, v: &Version, b: &Version| match op {
        "<" => v < b,
        "<=" => v <= b,
        ">" => v > b,
        ">=" => v >= b,
        "!=" => !(v >= b && v <= b),
        _ => v >= b && v <= b,
    };
    for (o1, b1, con, o2, b2) in pairs {
        let (m, t) = match accepted(format!("{}{}{}{}{}", o1, b1.as_str(), con, o2, b2.as_str())) {
            Ok(x) => x,
            Err(e) => return Bad(e),
        };
        for (i, v) in vs.iter().enumerate() {
            let (p, q) = (holds(o1, v, b1), holds(o2, v, b2));
            let want = if con == "," { p && q } else { p || q };
            ensure!(m[i] == want, "range {} on {}: answered {}, expected {}", short(&t), short(v.as_str()), m[i], want);
        }
        o.hit("ranges");
    }
    if nontrivial { Held } else { Trivial }
}

// ---------------------------------------------------------------- C22 place by place

pub fn gen_places(c: &Ctx, r: &mut Rng) -> Case {
    let o = if r.chance(20) { ANY } else { PLAIN };
    let n = r.range(2, 6);
    let mut a = cluster(r, c, o, n);
    if r.chance(40) {
        for i in 0..n {
            if r.chance(40) {
                if r.chance(25) {
                    // the same text, other parts
                    let t = a[i].clone();
                    a.push(t);
                }
                a[i] = assemble_version(r, &a[i], false);
                if r.chance(20) {
                    // any place can hold any kind of component
                    a[i] = a[i].replacen("\u{1}I", *r.pick(&["\u{1}E1 I", "\u{1}N I", "\u{1}E-3 I", "\u{1}E0 L0 I", "\u{1}P I", "\u{1}P P I", "\u{1}Ppost P I", "\u{1}Pdev I", "\u{1}Pa P I"]), 1);
                }
            }
        }
    }
    Case::new("family", a)
}

pub fn eval_places(case: &Case, o: &mut Obs) -> Verdict {
    let mut vs = vec![];
    for s in &case.a {
        if let Some(v) = assembled(s) {
            o.hit("assembled_by_caller");
            vs.push(v);
        } else if let Ok(v) = parse(s) {
            vs.push(v);
        }
    }
    if vs.len() < 2 {
        return Skip;
    }
    let alone = |p: Option<&VersionPart>| Version::parse("", &|_: &str| Ok(p.cloned().into_iter().collect())).unwrap();
    let nothing = alone(None);
    let mut held = false;
    for a in &vs {
        ensure!(a.parts().len() == a.part_count(), "{}: {} components, but {} are counted", short(a.as_str()), a.parts().len(), a.part_count());
        for b in &vs {
            let (pa, pb) = (a.parts(), b.parts());
            let mut want = Ordering::Equal;
            let mut at = 0;
            let both = pa.len().min(pb.len());
            while want == Ordering::Equal && at < both {
                let (x, y) = (&pa[at], &pb[at]);
                want = match x.partial_cmp(y) {
                    Some(w) => w,
                    None => return Bad(format!("the components {} and {} are unordered", x, y)),
                };
                ensure!(y.partial_cmp(x) == Some(want.reverse()), "the components {} and {} compare {:?} one way and {:?} the other", x, y, want, y.partial_cmp(x));
                ensure!((x == y) == (want == Ordering::Equal) && (x < y) == (want == Ordering::Less) && (x > y) == (want == Ordering::Greater), "the operators on components {} and {} contradict the comparison ({:?})", x, y, want);
                at += 1;
            }
            let by_place = want != Ordering::Equal;
            while want == Ordering::Equal && at < pa.len().max(pb.len()) {
                // a place one of them lacks: as if there were nothing else
                want = match three(&alone(pa.get(at)), &alone(pb.get(at))) {
                    Some(w) => w,
                    None => return Bad(format!("{} is unordered with a missing place", pa.get(at).or(pb.get(at)).unwrap())),
                };
                at += 1;
            }
            let got = three(a, b);
            ensure!(got == Some(want), "{} vs {}: their components say {:?}, the versions {:?}", short(a.as_str()), short(b.as_str()), want, got);
            o.hit(if by_place { "decided_by_a_place" } else if want == Ordering::Equal { "equal" } else { "decided_by_missing_places" });
            held |= want != Ordering::Equal;
        }
    }
    // the components among themselves
    let mut pool: Vec<&VersionPart> = vec![];
    for v in &vs {
        pool.extend(v.parts().iter().take(5));
    }
    pool.truncate(12);
    let smaller: Vec<usize> = pool.iter().map(|x| pool.iter().filter(|y| *y < x).count()).collect();
    for (i, x) in pool.iter().enumerate() {
        for (j, y) in pool.iter().enumerate() {
            let want = smaller[i].cmp(&smaller[j]);
            ensure!(x.partial_cmp(y) == Some(want), "the components {} and {} compare {:?}, but the others around them say {:?}", x, y, x.partial_cmp(y), want);
            if let (VersionPart::PEP440String(p), VersionPart::PEP440String(q)) = (x, y) {
                ensure!(p.partial_cmp(q) == Some(want) && (p == q) == (want == Ordering::Equal), "the texts in the components {} and {} compare {:?} (equal: {}), the components {:?}", x, y, p.partial_cmp(q), p == q, want);
            }
            let (va, vb) = (alone(Some(x)), alone(Some(y)));
            ensure!(three(&va, &vb) == Some(want), "versions of the one component {} and {} compare {:?} instead of {:?}", x, y, three(&va, &vb), want);
        }
        // a missing place counts as zero, or no text
        let zero = match x {
            VersionPart::Epoch(e) => Some(e.cmp(&0)),
            VersionPart::Integer(n) => Some(n.cmp(&0)),
            VersionPart::LexicographicString(s) => Some(s.len().cmp(&0)),
            VersionPart::Empty => Some(Ordering::Equal),
            _ => None,
        };
        if let Some(zero) = zero {
            ensure!(three(&alone(Some(x)), &nothing) == Some(zero), "the component {} alone compares {:?} with a missing place", x, three(&alone(Some(x)), &nothing));
        }
        ensure!(three(&alone(Some(x)), &nothing) == three(&nothing, &alone(Some(x))).map(|w| w.reverse()), "{} and a missing place compare the same way round both ways", x);
    }
    o.add("components_ranked", pool.len() as u64);
    if held { Held } else { Trivial }
}
