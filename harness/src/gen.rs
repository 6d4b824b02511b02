//! Workload generators. Everything is a function of (seed, index), so a case can be regenerated.
use crate::model::{self, Rx};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut h = 0x9E37_79B9_7F4A_7C15u64;
        for p in parts {
            h = (h ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            h ^= h >> 29;
            h = h.wrapping_mul(0x94D0_49BB_1331_11EB);
            h ^= h >> 32;
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// What the generators know about the tree under test: literals of its sources (so that special
/// cases a change introduces are likely to be hit) and the versions of its own test data.
#[derive(Clone)]
pub struct Ctx {
    pub words: Vec<String>,
    pub ints: Vec<u64>,
    /// literals the tree under test has more of than the tree this was written for
    pub new_words: Vec<String>,
    pub new_ints: Vec<u64>,
    pub real_versions: Vec<String>,
    pub real_specs: Vec<String>,
    pub repodata_path: String,
}

/// how often each literal occurs in the sources
#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Literals {
    pub words: BTreeMap<String, usize>,
    pub ints: BTreeMap<u64, usize>,
}

pub fn literals(repo: &str) -> Literals {
    let mut files = vec![];
    for d in ["core/src", "python/src"] {
        walk(std::path::Path::new(&format!("{}/{}", repo, d)), &mut files);
    }
    let mut l = Literals::default();
    for f in files {
        scan(&std::fs::read_to_string(&f).unwrap_or_default(), &mut l);
    }
    l
}

fn more<T: Ord + Clone>(now: &BTreeMap<T, usize>, base: &BTreeMap<T, usize>) -> Vec<T> {
    now.iter().filter(|(k, n)| base.get(k).map_or(0, |b| *b) < **n).map(|(k, _)| k.clone()).collect()
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map_or(false, |e| e == "rs") {
                out.push(p)
            }
        }
    }
}

impl Ctx {
    pub fn empty() -> Ctx {
        Ctx { words: vec![], ints: vec![], new_words: vec![], new_ints: vec![], real_versions: vec![], real_specs: vec![], repodata_path: String::new() }
    }
    pub fn mini() -> Ctx {
        Ctx { words: vec!["rc".into()], ints: vec![3], new_words: vec![], new_ints: vec![], real_versions: vec!["1.2.3".into(), "2019.1post1".into()], real_specs: vec![">=1.0,<2.0".into()], repodata_path: String::new() }
    }
    pub fn load(repo: &str) -> Ctx {
        let l = literals(repo);
        let base: Literals = serde_json::from_str(include_str!("literals.json")).unwrap();
        let repodata_path = format!("{}/core/tests/data/current_repodata.json", repo);
        let mut versions = BTreeSet::new();
        let mut specs = BTreeSet::new();
        if let Ok(t) = std::fs::read_to_string(&repodata_path) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                for k in ["packages", "packages.conda"] {
                    if let Some(o) = v[k].as_object() {
                        for r in o.values() {
                            if let Some(x) = r["version"].as_str() {
                                versions.insert(x.to_string());
                            }
                            for d in r["depends"].as_array().into_iter().flatten() {
                                if let Some(s) = d.as_str().and_then(|s| s.split(' ').nth(1)) {
                                    specs.insert(s.to_string());
                                }
                            }
                        }
                    }
                }
            }
        }
        Ctx {
            new_words: more(&l.words, &base.words),
            new_ints: more(&l.ints, &base.ints),
            words: l.words.into_iter().map(|x| x.0).collect(),
            ints: l.ints.into_iter().map(|x| x.0).collect(),
            real_versions: versions.into_iter().collect(),
            real_specs: specs.into_iter().collect(),
            repodata_path,
        }
    }
}

/// string, char and integer literals of a Rust source text
fn scan(t: &str, l: &mut Literals) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' if i + 2 < c.len() => {
                            let hex: String = c[i + 1..i + 3].iter().collect();
                            s.extend(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32));
                            i += 2;
                        }
                        'u' if c.get(i + 1) == Some(&'{') => {
                            let hex: String = c[i + 2..].iter().take_while(|x| **x != '}').collect();
                            s.extend(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32));
                            i += hex.chars().count() + 2;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            if !s.is_empty() && s.chars().count() <= 24 {
                *l.words.entry(s).or_insert(0) += 1;
            }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '\'' && i + 3 < c.len() && c[i + 1] == '\\' && c[i + 3] == '\'' {
            let ch = match c[i + 2] {
                'n' => '\n',
                't' => '\t',
                'r' => '\r',
                '0' => '\0',
                x => x,
            };
            *l.words.entry(ch.to_string()).or_insert(0) += 1;
            i += 3;
        } else if c[i] == '\'' && c[i + 1..].starts_with(&['\\', 'u', '{']) || c[i] == '\'' && c[i + 1..].starts_with(&['\\', 'x']) {
            let hex: String = c[i + 3..].iter().skip_while(|x| **x == '{').take_while(|x| x.is_ascii_hexdigit()).collect();
            if let Some(ch) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                *l.words.entry(ch.to_string()).or_insert(0) += 1;
            }
            i += 3 + hex.len();
        } else if c[i] == '\'' && i + 2 < c.len() && c[i + 2] == '\'' {
            *l.words.entry(c[i + 1].to_string()).or_insert(0) += 1;
            i += 2;
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut s = String::new();
            let hex = c[i] == '0' && i + 1 < c.len() && c[i + 1] == 'x';
            if hex {
                i += 2;
            }
            while i < c.len() && (c[i] == '_' || if hex { c[i].is_ascii_hexdigit() } else { c[i].is_ascii_digit() }) {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            if let Ok(n) = u64::from_str_radix(&s, if hex { 16 } else { 10 }) {
                *l.ints.entry(n).or_insert(0) += 1;
            }
            continue;
        }
        i += 1;
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Uni {
    Ascii,
    /// letters whose case folding is uncontroversial
    Safe,
    Any,
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub uni: Uni,
    /// only characters a spec may carry in its version text
    pub spec: bool,
    pub long: bool,
}

pub const PLAIN: Opt = Opt { uni: Uni::Safe, spec: false, long: true };
pub const SPEC: Opt = Opt { uni: Uni::Safe, spec: true, long: true };
pub const ANY: Opt = Opt { uni: Uni::Any, spec: false, long: true };

const NUMS: &[u64] = &[
    0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 511, 512, 999, 1000,
    1001, 1023, 1024, 2012, 2013, 2019, 2020, 2023, 4095, 4096, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000, 8388607, 8388608, 16777215, 16777216, 16777217,
    20200101, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 9999999999, 20201231235959, 4503599627370497, 9007199254740991, 9007199254740992, 9007199254740993,
    9223372036854775806, 9223372036854775807,
];

/// an integer of the sources, preferably one that a change brought
pub fn known_int(r: &mut Rng, c: &Ctx) -> u64 {
    if !c.new_ints.is_empty() && r.chance(70) { *r.pick(&c.new_ints) } else if c.ints.is_empty() { 3 } else { *r.pick(&c.ints) }
}

pub fn near_new(r: &mut Rng, c: &Ctx, percent: usize) -> Option<usize> {
    if c.new_ints.is_empty() || !r.chance(percent) {
        return None;
    }
    let n = *r.pick(&c.new_ints);
    Some(n.saturating_add(r.below(4) as u64).saturating_sub(1).min(1 << 40) as usize)
}

pub fn new_word(r: &mut Rng, c: &Ctx, percent: usize) -> Option<String> {
    if c.new_words.is_empty() || !r.chance(percent) { None } else { Some(r.pick(&c.new_words).clone()) }
}

pub fn int_value(r: &mut Rng, c: &Ctx) -> u64 {
    if let Some(n) = near_new(r, c, 5) {
        return n as u64;
    }
    let v = match r.below(20) {
        0..=7 => r.below(13) as u64,
        8..=12 => *r.pick(NUMS),
        13..=15 => {
            let d = r.range(1, 18) as u32;
            r.next() % 10u64.pow(d)
        }
        16..=17 if !c.ints.is_empty() => {
            let n = known_int(r, c);
            n.wrapping_add(r.below(3) as u64).saturating_sub(1)
        }
        _ => r.below(2000) as u64,
    };
    v.min(i64::MAX as u64)
}

pub fn number(r: &mut Rng, c: &Ctx) -> String {
    if let Some(n) = near_new(r, c, 2) {
        // as many digits
        if n > 0 && n <= 40 {
            let d = n.min(18) as u32;
            return format!("{:0>1$}", r.next() % 10u64.pow(d), n);
        }
    }
    let v = int_value(r, c);
    match r.below(30) {
        0 => format!("0{}", v),
        1 => format!("{}{}", "0".repeat(r.range(1, 25)), v),
        _ => v.to_string(),
    }
}

const VOCAB: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "k", "l", "m", "n", "p", "q", "r", "s", "t", "v", "w", "x", "y", "z", "rc", "alpha", "beta", "dev", "post", "pre", "preview", "final", "release", "pl", "patch", "ga", "sp",
    "rev", "nightly", "git", "build", "gabcdef", "ab", "aa", "ba", "abc", "devel", "develop", "predev", "dev_", "postrelease", "prepost", "devpost", "postdev", "de", "ev", "po", "pos", "ost", "deev", "posst", "snapshot", "snap",
    "beta-", "ad", "az", "za", "zz", "zzz", "zpost", "adev", "o", "openssl", "none", "true", "inf", "nan", "ii", "iv",
];
const SAFE_LETTERS: &[char] = &['é', 'É', 'ñ', 'Ñ', 'ö', 'Ö', 'α', 'Α', 'ж', 'Ж', 'д', 'Д', '中', 'あ'];
const ANY_CHARS: &[char] = &[
    '\u{0}', '\t', '\n', '\r', ' ', '"', '#', '$', '%', '&', '\'', '(', ')', '*', ',', '/', ':', ';', '<', '=', '>', '?', '@', '[', '\\', ']', '^', '`', '{', '|', '}', '~', '\u{7f}', '\u{80}', '\u{a0}', 'ſ', 'K', 'ß', 'ẞ', 'İ', 'ı', 'ς', 'σ', 'Σ', '٣', '３', '߄', '𝟘', '²', 'Ⅷ', '\u{301}', '\u{200b}', '\u{202e}',
    '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', 'ǅ', 'ﬁ',
    // look like a separator
    '\u{b7}', '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2014}', '\u{2015}', '\u{2024}', '\u{2212}', '\u{3002}', '\u{ff01}', '\u{ff0b}', '\u{ff0d}', '\u{ff0e}', '\u{ff3f}', '\u{ff65}', '\u{85}', '\u{b}', '\u{c}', '\u{2028}', '\u{61f}', '\u{ab}',
];

/// characters without a meaning or a letter case, which belong to the text they stand in
const ODD: &[char] = &[' ', ' ', '\t', '\n', '\r', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '*', ',', '/', ':', ';', '<', '=', '>', '?', '@', '[', ']', '^', '`', '{', '|', '}', '~', '\\', '\u{0}', '\u{7f}', '\u{a0}', '\u{3000}', '\u{200b}', '\u{fffd}', '\u{b7}', '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2014}', '\u{2015}', '\u{2024}', '\u{2212}', '\u{3002}', '\u{ff01}', '\u{ff0b}', '\u{ff0d}', '\u{ff0e}', '\u{ff3f}', '\u{ff65}', '\u{85}'];

pub fn flip_case(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_uppercase(),
        1 => {
            let mut out = String::new();
            for c in s.chars() {
                if r.chance(50) { out.extend(c.to_uppercase()) } else { out.extend(c.to_lowercase()) }
            }
            out
        }
        _ => {
            let mut cs = s.chars();
            match cs.next() {
                Some(f) => f.to_uppercase().chain(cs).collect(),
                None => String::new(),
            }
        }
    }
}

pub fn word(r: &mut Rng, c: &Ctx, o: Opt) -> String {
    if let Some(w) = new_word(r, c, 12) {
        let mut w: String = w.chars().filter(|ch| !matches!(ch, '!' | '+' | '_' | '-')).collect();
        if o.uni == Uni::Ascii {
            w.retain(|ch| ch.is_ascii());
        } else if o.uni == Uni::Safe {
            w.retain(|ch| ch.is_ascii() || SAFE_LETTERS.contains(&ch) || ODD.contains(&ch));
        }
        if o.spec {
            w.retain(|ch| ch.is_alphanumeric());
        }
        if r.chance(10) {
            w = flip_case(r, &w);
        }
        if !w.is_empty() {
            return w;
        }
    }
    if let Some(n) = near_new(r, c, 3) {
        if o.long && n < 600 {
            let k = r.range(1, 26);
            return (0..n.max(1)).map(|_| (b'a' + r.below(k) as u8) as char).collect();
        }
    }
    let mut w: String = match r.below(20) {
        0..=11 => r.pick(VOCAB).to_string(),
        12..=13 if !c.words.is_empty() => {
            let w = r.pick(&c.words).clone();
            let w: String = w.chars().filter(|ch| ch.is_ascii_alphabetic()).collect();
            if w.is_empty() { "q".into() } else { w }
        }
        14..=16 => {
            let n = r.range(1, 4);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        17 if o.long => {
            let n = r.range(5, 120);
            let k = r.range(1, 26);
            (0..n).map(|_| (b'a' + r.below(k) as u8) as char).collect()
        }
        18 if o.uni != Uni::Ascii => {
            let n = r.range(1, 3);
            (0..n).map(|_| if r.chance(30) { 'a' } else { *r.pick(SAFE_LETTERS) }).collect()
        }
        19 if o.uni == Uni::Any => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(ANY_CHARS)).collect()
        }
        _ => r.pick(VOCAB).to_string(),
    };
    if !o.spec && r.chance(4) {
        let n = r.range(1, 3);
        let odd: String = (0..n).map(|_| *r.pick(ODD)).filter(|ch| ch.is_ascii() || o.uni != Uni::Ascii).collect();
        w = match r.below(4) {
            0 => odd,
            1 => w + &odd,
            2 => odd + &w,
            _ => format!("{}{}{}", w, odd, w),
        };
        if w.is_empty() {
            w.push('q');
        }
    }
    w.retain(|ch| ch != '_' && ch != '-');
    if r.chance(25) {
        w = flip_case(r, &w);
    }
    w
}

pub fn sep(r: &mut Rng) -> char {
    match r.below(10) {
        0 => '_',
        1 => '-',
        _ => '.',
    }
}

fn seps(r: &mut Rng) -> String {
    if r.chance(97) {
        sep(r).to_string()
    } else {
        (0..r.range(2, 4)).map(|_| sep(r)).collect()
    }
}

fn component(r: &mut Rng, c: &Ctx, o: Opt) -> String {
    match r.below(20) {
        0..=12 => number(r, c),
        13..=15 => word(r, c, o),
        16..=17 => format!("{}{}", number(r, c), word(r, c, o)),
        18 => format!("{}{}", word(r, c, o), number(r, c)),
        _ => format!("{}{}{}", number(r, c), word(r, c, o), number(r, c)),
    }
}

fn local(r: &mut Rng, c: &Ctx, o: Opt) -> String {
    let n = r.range(0, 3);
    let mut s = component(r, c, o);
    for _ in 0..n {
        s.push(sep(r));
        s.push_str(&component(r, c, o));
    }
    s
}

fn count(r: &mut Rng, c: &Ctx, long: bool) -> usize {
    if let Some(n) = near_new(r, c, 4) {
        return n.clamp(1, if long { 300 } else { 12 });
    }
    let n = match r.below(200) {
        0..=149 => r.range(1, 5),
        150..=184 => r.range(3, 12),
        185..=193 => r.range(10, 40),
        194..=197 => r.range(40, 130),
        198 if !c.ints.is_empty() => {
            let k = known_int(r, c) as usize + r.below(3);
            k.saturating_sub(1).clamp(1, 300)
        }
        199 => r.range(130, 300),
        _ => r.range(1, 6),
    };
    if long { n } else { n.min(8) }
}

/// A version string the documentation gives a meaning to (always accepted).
pub fn version(r: &mut Rng, c: &Ctx, o: Opt) -> String {
    if r.chance(8) && !c.real_versions.is_empty() {
        return r.pick(&c.real_versions).clone();
    }
    let mut s = String::new();
    if r.chance(9) {
        let e = match r.below(8) {
            0..=4 => r.below(4).to_string(),
            5 => r.pick(&["0", "9", "10", "99", "100", "127", "128", "255", "256", "1000", "32766", "32767", "2019", "007", "00"]).to_string(),
            6 => r.range(0, 32767).to_string(),
            _ => {
                if o.spec { r.below(100).to_string() } else { format!("-{}", r.range(1, 32768)) }
            }
        };
        s.push_str(&e);
        s.push('!');
    }
    if !o.spec && r.chance(2) {
        s.push(sep(r));
    }
    let n = count(r, c, o.long);
    for i in 0..n {
        if i > 0 {
            s.push_str(&seps(r));
        }
        s.push_str(&component(r, c, o));
    }
    if r.chance(15) {
        for _ in 0..r.range(1, 4) {
            s.push(sep(r));
            s.push('0');
        }
    }
    if !o.spec && r.chance(2) {
        s.push(sep(r));
    }
    if r.chance(10) {
        s.push('+');
        if !r.chance(4) {
            let l = local(r, c, o);
            s.push_str(&l);
        }
    }
    if o.spec { spec_text(&s) } else { s }
}

/// keep only what may stand in the version text of a spec, starting with a letter or digit
pub fn spec_text(s: &str) -> String {
    let t: String = s.chars().filter(|c| c.is_alphanumeric() || matches!(c, '.' | '_' | '-' | '+' | '!')).collect();
    let t = t.trim_start_matches(|c: char| !c.is_alphanumeric()).to_string();
    let t = t.trim_end_matches(|c: char| matches!(c, '.' | '_' | '-' | '+' | '!')).to_string();
    if t.is_empty() { "1".into() } else { t }
}

/// A close relative of `v`: differs in one or two places, often late, often only in spelling.
pub fn twin(r: &mut Rng, c: &Ctx, o: Opt, v: &str) -> String {
    let mut s = v.to_string();
    for _ in 0..(1 + r.below(2)) {
        s = twin1(r, c, o, &s);
    }
    if o.spec { spec_text(&s) } else { s }
}

fn split_tail(s: &str) -> (String, String) {
    match s.find('+') {
        Some(i) => (s[..i].to_string(), s[i..].to_string()),
        None => (s.to_string(), String::new()),
    }
}

fn twin1(r: &mut Rng, c: &Ctx, o: Opt, v: &str) -> String {
    let (body, tail) = split_tail(v);
    if !c.new_words.is_empty() && r.chance(10) {
        // the same with a word of the change in it
        let w = word(r, &Ctx { words: c.new_words.clone(), ..Ctx::empty() }, o);
        let w = new_word(r, c, 80).map_or(w, |w| w.chars().filter(|ch| !matches!(ch, '!' | '+') && (o.uni != Uni::Safe || ch.is_ascii())).collect());
        return match r.below(4) {
            0 => format!("{}{}{}", body, w, tail),
            1 => format!("{}.{}{}", body, w, tail),
            2 if !body.contains('!') => format!("{}{}{}", w, body, tail),
            _ => edit_run(r, &body, false, |_, _| w) + &tail,
        };
    }
    match r.below(22) {
        0 => format!("{}.0{}", body, tail),
        1 => format!("{}{}{}", body, ".0".repeat(r.range(2, 6)), tail),
        2 => format!("{}{}{}{}", body, sep(r), component(r, c, o), tail),
        3 => format!("{}{}{}", body, r.pick(&["dev", "post", "a", "rc1", ".dev1", ".post1", "post", "b0", "_a", ".a", "DEV", "PostX", "z"]), tail),
        4 => {
            // drop the last component
            match body.rfind(|ch| matches!(ch, '.' | '_' | '-')) {
                Some(i) if i > 0 => format!("{}{}", &body[..i], tail),
                _ => format!("{}{}", body, tail),
            }
        }
        5 | 6 => {
            // change one number, near
            edit_run(r, &body, true, |r, t| {
                let n: u64 = t.parse().unwrap_or(5);
                match r.below(6) {
                    0 => n.saturating_sub(1).to_string(),
                    1 => (n.min(i64::MAX as u64 - 1) + 1).to_string(),
                    2 => format!("0{}", t),
                    3 => "0".into(),
                    4 => int_value(r, c).to_string(),
                    _ => {
                        // change one digit
                        let mut b = t.as_bytes().to_vec();
                        let i = r.below(b.len());
                        b[i] = b'0' + r.below(10) as u8;
                        let s = String::from_utf8(b).unwrap();
                        let m = model::norm_int(&s);
                        if model::cmp_digits(&m, "9223372036854775807") == std::cmp::Ordering::Greater { "7".into() } else { s }
                    }
                }
            }) + &tail
        }
        7 => edit_run(r, &body, false, |r, t| flip_case(r, t)) + &tail,
        8 => edit_run(r, &body, false, |r, t| {
            let mut t = t.to_string();
            let ch = (b'a' + r.below(26) as u8) as char;
            match r.below(3) {
                0 => t.push(ch),
                1 => t.insert(0, ch),
                _ => {
                    t.pop();
                    t.push(ch)
                }
            }
            t
        }) + &tail,
        9 => edit_run(r, &body, false, |r, _| word(r, c, o)) + &tail,
        10 => {
            // other separators
            let s: String = body.chars().map(|ch| if matches!(ch, '.' | '_' | '-') && r.chance(50) { sep(r) } else { ch }).collect();
            // a leading '-' of an epoch must stay
            if body.starts_with('-') { v.to_string() } else { s + &tail }
        }
        11 => {
            if tail.is_empty() {
                format!("{}+{}", body, local(r, c, o))
            } else if r.chance(50) {
                body
            } else {
                format!("{}+{}", body, local(r, c, o))
            }
        }
        12 => {
            if tail.is_empty() {
                format!("{}+a", body)
            } else {
                let t = flip_case(r, &tail[1..]);
                format!("{}+{}", body, t)
            }
        }
        13 => match v.find('!') {
            Some(i) => v[i + 1..].to_string(),
            None => format!("{}!{}", r.below(3), v),
        },
        14 => match v.find('!') {
            Some(i) => format!("{}!{}", r.below(4), &v[i + 1..]),
            None => v.to_string(),
        },
        15 => {
            // duplicate the last component
            match body.rfind(|ch| matches!(ch, '.' | '_' | '-')) {
                Some(i) => format!("{}{}{}", body, &body[i..], tail),
                _ => format!("{}.{}{}", body, body.rsplit('!').next().unwrap_or("1"), tail),
            }
        }
        16 => {
            // insert a separator between a number and letters
            let cs: Vec<char> = body.chars().collect();
            for i in 1..cs.len() {
                if cs[i].is_ascii_digit() != cs[i - 1].is_ascii_digit() && cs[i].is_alphanumeric() && cs[i - 1].is_alphanumeric() && r.chance(60) {
                    let mut t: String = cs[..i].iter().collect();
                    t.push(sep(r));
                    t.extend(&cs[i..]);
                    return t + &tail;
                }
            }
            format!("{}{}", body, tail)
        }
        17 => {
            // a different component in the middle, everything else kept
            let cs: Vec<&str> = body.split('.').collect();
            if cs.len() > 1 {
                let i = r.below(cs.len());
                let n = component(r, c, o);
                let mut cs: Vec<String> = cs.into_iter().map(|s| s.to_string()).collect();
                if !cs[i].contains('!') {
                    cs[i] = n;
                }
                cs.join(".") + &tail
            } else {
                body + &tail
            }
        }
        18 => {
            let cs: Vec<&str> = body.split('.').collect();
            if cs.len() > 2 {
                let mut cs = cs;
                let i = r.range(1, cs.len() - 1);
                cs.remove(i);
                cs.join(".") + &tail
            } else {
                body + &tail
            }
        }
        19 => {
            // zeroes before the tail of text: 1.a vs 1.0.a
            match body.rfind('.') {
                Some(i) => format!("{}.0{}{}", &body[..i], &body[i..], tail),
                None => body + &tail,
            }
        }
        20 => {
            if o.uni == Uni::Any && !v.is_empty() {
                let cs: Vec<char> = v.chars().collect();
                let i = r.below(cs.len());
                let mut t: String = cs[..i].iter().collect();
                t.push(*r.pick(ANY_CHARS));
                t.extend(&cs[i + r.below(2)..]);
                t
            } else {
                v.to_string()
            }
        }
        _ => v.to_string(),
    }
}

/// replace one maximal run of digits (or of letters) of `s`, preferring late ones
fn edit_run(r: &mut Rng, s: &str, digits: bool, f: impl FnOnce(&mut Rng, &str) -> String) -> String {
    let start = s.find('!').map(|i| i + 1).unwrap_or(0);
    let mut runs = vec![];
    let mut cur: Option<(usize, usize)> = None;
    for (i, ch) in s.char_indices() {
        if i < start {
            continue;
        }
        let ok = if digits { ch.is_ascii_digit() } else { ch.is_alphabetic() };
        if ok {
            cur = Some((cur.map_or(i, |c| c.0), i + ch.len_utf8()));
        } else if let Some(c) = cur.take() {
            runs.push(c);
        }
    }
    runs.extend(cur);
    if runs.is_empty() {
        return s.to_string();
    }
    let k = if r.chance(50) { runs.len() - 1 } else { r.below(runs.len()) };
    let (a, b) = runs[k];
    let t = f(r, &s[a..b]);
    format!("{}{}{}", &s[..a], t, &s[b..])
}

/// A family of `n` versions: a few unrelated ones and many close relatives.
pub fn cluster(r: &mut Rng, c: &Ctx, o: Opt, n: usize) -> Vec<String> {
    let mut v = vec![version(r, c, o)];
    while v.len() < n {
        let x = if r.chance(12) {
            version(r, c, o)
        } else {
            let i = r.below(v.len());
            let b = v[i].clone();
            twin(r, c, o, &b)
        };
        if x.len() < 6000 {
            v.push(x);
        }
    }
    v
}

/// Any string at all.
pub fn junk(r: &mut Rng, c: &Ctx) -> String {
    match r.below(9) {
        8 => {
            // long, with characters of one to four bytes at every offset
            let n = if r.chance(80) { r.range(8, 100) } else { r.range(100, 700) };
            let few: Vec<char> = (0..r.range(1, 4)).map(|_| if r.chance(50) { *r.pick(ANY_CHARS) } else { *r.pick(ODD) }).collect();
            let dots = r.below(30);
            (0..n).map(|_| if r.below(100) < dots { *r.pick(&['.', '1', 'a', '+', '!']) } else { *r.pick(&few) }).collect()
        }
        0 => {
            let al: Vec<char> = "01a.!+-_ *,|()<>=~^$@".chars().collect();
            let n = r.range(0, 9);
            (0..n).map(|_| *r.pick(&al)).collect()
        }
        1 => {
            let n = r.range(0, 12);
            (0..n).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('x')).collect()
        }
        2 => {
            let n = r.range(0, 8);
            (0..n).map(|_| *r.pick(ANY_CHARS)).collect()
        }
        3 => {
            let n = r.range(0, 6);
            (0..n).map(|_| if let Some(w) = new_word(r, c, 30) { w } else if c.words.is_empty() { "x".to_string() } else { r.pick(&c.words).clone() }).collect()
        }
        4 => {
            let v = version(r, c, ANY);
            let mut cs: Vec<char> = v.chars().collect();
            for _ in 0..r.range(1, 3) {
                let i = r.below(cs.len() + 1);
                let al: Vec<char> = "!+.-_*,|()<>=~^$@ ".chars().collect();
                cs.insert(i, *r.pick(&al));
            }
            cs.into_iter().collect()
        }
        5 => {
            let n = near_new(r, c, 30).unwrap_or_else(|| r.range(0, 400)).min(5000);
            let ch = *r.pick(&['.', '+', '!', '0', '9', 'a', '(', ')', '*', '^', '-', 'é', '1']);
            std::iter::repeat(ch).take(n).collect()
        }
        6 => (0..r.range(15, 60)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        _ => version(r, c, ANY),
    }
}

// ---------------------------------------------------------------- specs

pub const FORMS: &[&str] = &["bare", "==", "!=", "<", "<=", ">", ">=", "=", "V*", "V.*", "V-*", "V_*", "=V.*", "!=V.*", "==V.*", "<V.*", "<=V.*", ">V.*", ">=V.*", "~=", "*", "@"];

pub fn spec_of(form: &str, v: &str) -> String {
    match form {
        "bare" => v.into(),
        "*" => "*".into(),
        "@" => v.into(),
        f if f.contains('V') => f.replace('V', v),
        f => format!("{}{}", f, v),
    }
}

const GLOB_TRAPS: &[&str] = &["[0-9]", "\\d", "\\.", "\\*", "{2}", "{0,}", "(?i)", "(a|b)", "[^1]", ".?", "\\", "|", "a|b", "+", "++", "\\x", "[", "]", "{", "(", ")", "?", "\\E", "\\Q", "#x", "[*]", "[!a]", "{a,b}"];

/// reads like the glob in another notation
fn glob_trap(r: &mut Rng, s: &str) -> String {
    match r.below(10) {
        0 => s.replace('?', ""),
        1 => s.replace("[0-9]", r.pick(&["1", "5"])).replace("\\d", "7").replace("[^1]", "2"),
        2 => s.replace('\\', ""),
        3 => s.replace("{2}", "").replace("{0,}", "").replace("+", ""),
        4 => s.replace("(a|b)", r.pick(&["a", "b"])).replace('(', "").replace(')', ""),
        5 => s.split('|').next().unwrap().to_string(),
        6 => s.split('|').last().unwrap().to_string(),
        7 => s.replace('[', "").replace(']', ""),
        8 => s.replace("++", "+"),
        _ => s.split('#').next().unwrap().to_string(),
    }
}

pub fn glob_pattern(r: &mut Rng, c: &Ctx) -> String {
    loop {
        let v = version(r, c, Opt { uni: Uni::Ascii, spec: true, long: false });
        let cs: Vec<char> = v.chars().collect();
        let mut p = String::new();
        let most = if r.chance(5) { 12 } else { 3 };
        let stars = r.range(1, most);
        let odd = if r.chance(30) { r.range(1, 3) } else { 0 };
        let mut at: Vec<usize> = (0..stars).map(|_| r.below(cs.len())).collect();
        at.sort();
        let mut i = 0;
        while i < cs.len() {
            if at.contains(&i) {
                p.push('*');
                i += r.below(3);
                if i >= cs.len() {
                    break;
                }
            }
            p.push(cs[i]);
            i += 1;
        }
        // characters that mean something in other notations stand for themselves here
        for _ in 0..odd {
            let ch: Vec<char> = p.chars().collect();
            let k = r.below(ch.len() + 1);
            let mut q: String = ch[..k].iter().collect();
            if r.chance(75) { q.push(*r.pick(ODD)) } else { q.push_str(r.pick(GLOB_TRAPS)) }
            q.extend(&ch[k..]);
            p = q;
        }
        if r.chance(15) {
            p.push('*');
        }
        let trimmed = p.trim_end_matches('*');
        if trimmed.contains('*') && !p.starts_with(&['!', '=', '<', '>', '~', '^'][..]) && !p.ends_with('$') && p.chars().count() <= 60 {
            return p;
        }
    }
}

/// a text the glob might match
pub fn glob_instance(r: &mut Rng, c: &Ctx, p: &str) -> String {
    let mut s = String::new();
    for ch in p.chars() {
        if ch == '*' {
            match r.below(4) {
                0 => {}
                1 => s.push_str(&number(r, c)),
                2 => s.push_str(&version(r, c, Opt { uni: Uni::Ascii, spec: true, long: false })),
                _ if r.chance(12) => s.push(*r.pick(ODD)),
                _ if r.chance(5) => s.push_str(r.pick(&["\u{e9}", "\u{4e2d}", "1\u{df}"])),
                _ => s.push_str(r.pick(&["0", "1", "a", ".", "1.", ".1", "rc"])),
            }
        } else {
            s.push(ch)
        }
    }
    if r.chance(45) {
        // near miss
        let mut cs: Vec<char> = s.chars().collect();
        if !cs.is_empty() {
            let i = r.below(cs.len());
            let al: Vec<char> = "0123456789.ab_-x".chars().collect();
            match r.below(4) {
                0 => cs[i] = *r.pick(&al),
                1 => {
                    cs.remove(i);
                }
                2 => cs.insert(i, *r.pick(&al)),
                _ => {
                    if r.chance(50) { cs.push(*r.pick(&al)) } else { cs.insert(0, *r.pick(&al)) }
                }
            }
        }
        s = cs.into_iter().collect();
    }
    if r.chance(12) {
        s = glob_trap(r, &s);
    }
    s
}

pub fn rx(r: &mut Rng, depth: usize) -> Rx {
    let lits: Vec<char> = "0011223456789.._-abcdevpostrx+!".chars().collect();
    match r.below(if depth == 0 { 8 } else { 16 }) {
        0 if r.chance(8) => Rx::Lit(*r.pick(&['\u{e9}', '\u{4e2d}', ' ', ',', '|', '(', ')', '*', '?', '[', '{', '\\', '^', '"', '=', '<', '~', 'A', 'R', 'X', '\n', '\t', '\r', '\u{a0}', '\u{1f600}', '\u{0}'])),
        1 if r.chance(12) => Rx::Spelled(*r.pick(&lits), r.below(9) as u8),
        0..=4 => Rx::Lit(*r.pick(&lits)),
        5 => Rx::Digit,
        6 => {
            let n = r.range(1, 2);
            let rs = (0..n)
                .map(|_| match r.below(4) {
                    0 => {
                        let a = r.below(9) as u8;
                        (char::from(b'0' + a), char::from(b'0' + a + r.below(10 - a as usize) as u8))
                    }
                    1 => ('a', char::from(b'a' + r.below(26) as u8)),
                    2 => ('.', '.'),
                    _ => {
                        let ch = char::from(b'0' + r.below(10) as u8);
                        (ch, ch)
                    }
                })
                .collect();
            Rx::Class(r.chance(30), rs)
        }
        7 => Rx::Any,
        8..=11 => Rx::Seq((0..r.range(1, 5)).map(|_| rx(r, depth - 1)).collect()),
        12 => Rx::Alt((0..r.range(2, 3)).map(|_| rx(r, depth - 1)).collect()),
        _ => {
            let lo = r.below(3) as u32;
            let hi = if r.chance(60) { None } else { Some(lo + r.below(3) as u32) };
            let hi = if hi == Some(0) { Some(1) } else { hi };
            Rx::Rep(Box::new(rx(r, depth - 1)), lo, hi)
        }
    }
}

/// regular expression derived from a version text: some characters generalised
pub fn rx_from(r: &mut Rng, v: &str) -> Rx {
    let mut out = vec![];
    for ch in v.chars().take(40) {
        out.push(match r.below(12) {
            0 if ch.is_ascii_digit() => Rx::Rep(Box::new(Rx::Digit), 1, None),
            1 => Rx::Any,
            2 => Rx::Alt(vec![Rx::Lit(ch), Rx::Lit('x')]),
            3 => Rx::Rep(Box::new(Rx::Lit(ch)), 0, None),
            4 if ch.is_ascii_digit() => Rx::Class(false, vec![('0', ch)]),
            5 => Rx::Class(true, vec![('y', 'z')]),
            6 if r.chance(25) => Rx::Spelled(ch, r.below(9) as u8),
            _ => Rx::Lit(ch),
        });
    }
    if r.chance(20) {
        out.push(Rx::Rep(Box::new(Rx::Any), 0, None));
    }
    if r.chance(15) {
        let k = r.below(out.len() + 1);
        let b = out.split_off(k);
        return Rx::Alt(vec![Rx::Seq(out), Rx::Seq(b)]);
    }
    Rx::Seq(out)
}

pub fn rx_instance(r: &mut Rng, x: &Rx, out: &mut String) {
    let any: Vec<char> = "0123456789.ab_-x\u{e9}\n".chars().collect();
    match x {
        Rx::Lit(c) | Rx::Spelled(c, _) => out.push(*c),
        Rx::Any => out.push(*r.pick(&any)),
        Rx::Digit => out.push((b'0' + r.below(10) as u8) as char),
        Rx::Class(neg, rs) => {
            if *neg {
                out.push(*r.pick(&any))
            } else {
                let (a, b) = *r.pick(rs);
                out.push(char::from_u32(a as u32 + r.below(b as usize - a as usize + 1) as u32).unwrap())
            }
        }
        Rx::Seq(v) => {
            for y in v {
                rx_instance(r, y, out)
            }
        }
        Rx::Alt(v) => rx_instance(r, r.clone().pick(v), out),
        Rx::Rep(y, lo, hi) => {
            let h = hi.unwrap_or(lo + 3);
            let n = r.range(*lo as usize, h as usize);
            for _ in 0..n {
                rx_instance(r, y, out)
            }
        }
    }
}

/// `^a|b$`: the anchors belong to the first and the last branch
pub fn rx_open(bs: &[Rx]) -> String {
    format!("^{}$", bs.iter().map(|b| if matches!(b, Rx::Alt(_)) { format!("({})", b.render()) } else { b.render() }).collect::<Vec<_>>().join("|"))
}

pub fn rx_text(x: &Rx) -> String {
    match x {
        Rx::Alt(_) => format!("^({})$", x.render()),
        _ => format!("^{}$", x.render()),
    }
}

/// A single spec without delimiters outside a regular expression.
pub fn leaf(r: &mut Rng, c: &Ctx, near: &str) -> String {
    let short = Opt { uni: Uni::Safe, spec: true, long: false };
    let v = if r.chance(60) { twin(r, c, short, near) } else { version(r, c, short) };
    match r.below(20) {
        0 => {
            let x = if r.chance(60) { rx_from(r, &spec_text(near)) } else { rx(r, 3) };
            rx_text(&x)
        }
        1 => {
            // not one a compound spec would take apart or trim
            let p = glob_pattern(r, c);
            if p.trim() != p || p.contains(&['(', ')', '|', ',', '^', '$'][..]) { p.chars().filter(|ch| "0123456789.*".contains(*ch)).skip_while(|ch| *ch == '.').collect::<String>() + "*.0" } else { p }
        }
        2 => "*".into(),
        3 => spec_of(r.pick(FORMS), &v),
        _ => {
            let f = *r.pick(&["bare", "==", "!=", "<", "<=", ">", ">=", "<", "<=", ">", ">=", "=", "V*", "V.*", "V-*", "=V.*", "!=V.*", "~="]);
            spec_of(f, &v)
        }
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Ast {
    L(String),
    And(Vec<Ast>),
    Or(Vec<Ast>),
}

pub fn ast(r: &mut Rng, c: &Ctx, near: &[String], depth: usize, budget: &mut usize) -> Ast {
    if depth == 0 || *budget <= 1 || r.chance(25) {
        *budget = budget.saturating_sub(1);
        let n = r.pick(near).clone();
        return Ast::L(leaf(r, c, &n));
    }
    let n = match r.below(20) {
        0 => r.range(5, 24),
        1 => 1,
        2..=4 => r.range(3, 5),
        _ => r.range(2, 3),
    };
    let v = (0..n).map(|_| ast(r, c, near, depth - 1, budget)).collect();
    if r.chance(50) { Ast::And(v) } else { Ast::Or(v) }
}

/// Many parts on one level, of which (on the version `w`) all but at most one agree: only a reader of
/// every part gets it right.
pub fn wide(r: &mut Rng, c: &Ctx, w: &str) -> Ast {
    let n = match r.below(12) {
        0..=3 => r.range(5, 40),
        4..=6 => r.range(60, 70),
        7 => r.range(95, 135),
        8 => r.range(250, 260),
        9 if r.chance(25) => r.range(500, 520),
        10 if !c.ints.is_empty() => (known_int(r, c) as usize).min(520) + r.below(4),
        _ => r.range(8, 20),
    };
    let and = r.chance(50);
    let odd = if r.chance(60) { n.saturating_sub(1 + r.below(3)) } else { r.below(n + 1) };
    let parts = (0..n.max(2))
        .map(|i| {
            let agrees = if r.chance(80) { *r.pick(&["==", ">=", "<=", "=", "bare", "*"]) } else { *r.pick(&["V.*", "=V.*", "V*"]) };
            let differs = *r.pick(&["!=", "<", ">", "!=V.*"]);
            Ast::L(spec_of(if (i == odd) != and { agrees } else { differs }, w))
        })
        .collect();
    let a = if and { Ast::And(parts) } else { Ast::Or(parts) };
    match r.below(6) {
        0 => Ast::Or(vec![Ast::L(format!("<{}", w)), a]),
        1 => Ast::And(vec![a, Ast::L(format!(">={}", w))]),
        _ => a,
    }
}

/// A deep alternating chain in which the innermost leaf decides about `w`, or one level in between.
pub fn deep(r: &mut Rng, c: &Ctx, w: &str) -> Ast {
    let n = match r.below(12) {
        0..=4 => r.range(3, 34),
        5..=6 => r.range(60, 70),
        7 => r.range(95, 135),
        8 if r.chance(30) => r.range(200, 300),
        9 if !c.ints.is_empty() => (known_int(r, c) as usize).min(200) + r.below(4),
        _ => r.range(8, 20),
    };
    let odd = if r.chance(50) { n + 1 } else { r.below(n + 1) };
    let side = |r: &mut Rng, yes: bool| {
        let f = if yes { *r.pick(&["==", ">=", "<=", "=", "bare", "*"]) } else { *r.pick(&["!=", "<", ">", "!=V.*"]) };
        Ast::L(spec_of(f, w))
    };
    let core = r.chance(50);
    let mut a = side(r, core);
    let first = r.below(2);
    for i in 0..n {
        let and = (i + first) % 2 == 0;
        let mut v: Vec<Ast> = (0..if r.chance(90) { 1 } else { 2 }).map(|_| side(r, and != (i == odd))).collect();
        v.insert(r.below(v.len() + 1), a);
        a = if and { Ast::And(v) } else { Ast::Or(v) };
    }
    a
}

fn ws(r: &mut Rng) -> &'static str {
    if r.chance(80) { "" } else { *r.pick(&[" ", "  ", "\t", " \t ", "\n"]) }
}

/// Render with parentheses only where precedence needs them, plus random redundant ones and blanks.
pub fn render(r: &mut Rng, a: &Ast, spaces: bool) -> String {
    render_in(r, a, 0, spaces)
}

/// level 0: anything, 1: inside an or, 2: inside an and
fn render_in(r: &mut Rng, a: &Ast, level: u8, spaces: bool) -> String {
    let (s, own) = match a {
        Ast::L(l) => (l.clone(), 3),
        Ast::And(v) if v.len() == 1 => (render_in(r, &v[0], level, spaces), 3),
        Ast::Or(v) if v.len() == 1 => (render_in(r, &v[0], level, spaces), 3),
        Ast::And(v) => (join(r, v, ",", 2, spaces), 2),
        Ast::Or(v) => (join(r, v, "|", 1, spaces), 1),
    };
    // same-operator children may stay bare: a,(b,c) == a,b,c
    let need = own < level;
    let redundant = r.chance(8);
    let mut s = s;
    if need || redundant {
        s = format!("({}{}{})", if spaces { ws(r) } else { "" }, s, if spaces { ws(r) } else { "" });
    }
    s
}

fn join(r: &mut Rng, v: &[Ast], op: &str, level: u8, spaces: bool) -> String {
    let mut out = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            if spaces {
                out.push_str(ws(r));
            }
            out.push_str(op);
            if spaces {
                out.push_str(ws(r));
            }
        }
        // sometimes parenthesise a same-operator child instead of leaving it bare
        let lv = if r.chance(50) { level } else { 3 };
        let s = match x {
            Ast::L(_) => render_in(r, x, level, spaces),
            _ => render_in(r, x, lv, spaces),
        };
        out.push_str(&s);
    }
    out
}

/// Canonical form: same-operator children fused into their parent, single-child nodes dissolved.
pub fn canon(a: &Ast) -> Ast {
    match a {
        Ast::L(s) => Ast::L(s.clone()),
        Ast::And(v) => fuse(v, true),
        Ast::Or(v) => fuse(v, false),
    }
}

fn fuse(v: &[Ast], and: bool) -> Ast {
    let mut out = vec![];
    for x in v {
        match (canon(x), and) {
            (Ast::And(w), true) => out.extend(w),
            (Ast::Or(w), false) => out.extend(w),
            (y, _) => out.push(y),
        }
    }
    if out.len() == 1 {
        return out.pop().unwrap();
    }
    if and { Ast::And(out) } else { Ast::Or(out) }
}
