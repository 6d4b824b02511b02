//! Repodata: generated index files, and the same files damaged in transit.
use crate::gen::*;
use crate::props::{hex, unhex, Case, Obs, Verdict};
use crate::watch::own;
use ronda::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use Verdict::*;

fn esc(r: &mut Rng, s: &str, how: usize) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || (how > 0 && r.chance(how)) {
            match c {
                '"' if r.chance(70) => o.push_str("\\\""),
                '\\' if r.chance(70) => o.push_str("\\\\"),
                '/' if r.chance(70) => o.push_str("\\/"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        if r.chance(50) { write!(o, "\\u{:04x}", u).unwrap() } else { write!(o, "\\u{:04X}", u).unwrap() }
                    }
                }
            }
        } else {
            o.push(c)
        }
    }
    o.push('"');
    o
}

struct W<'a> {
    r: &'a mut Rng,
    esc: usize,
    blank: usize,
}
impl<'a> W<'a> {
    fn ws(&mut self) -> String {
        if self.blank == 0 || !self.r.chance(self.blank) {
            return String::new();
        }
        (0..self.r.range(1, 3)).map(|_| *self.r.pick(&[' ', '\n', '\t', '\r'])).collect()
    }
    fn s(&mut self, t: &str) -> String {
        esc(self.r, t, self.esc)
    }
    fn obj(&mut self, mut f: Vec<(String, String)>, shuffle: bool) -> String {
        if shuffle {
            self.r.shuffle(&mut f);
        }
        let mut o = String::from("{");
        for (i, (k, v)) in f.into_iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let (a, b, c, d) = (self.ws(), self.ws(), self.ws(), self.ws());
            let kk = self.s(&k);
            write!(o, "{}{}{}:{}{}{}", a, kk, b, c, v, d).unwrap();
        }
        o.push_str(&self.ws());
        o.push('}');
        o
    }
    fn arr(&mut self, v: Vec<String>) -> String {
        let mut o = String::from("[");
        for (i, x) in v.into_iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let (a, b) = (self.ws(), self.ws());
            write!(o, "{}{}{}", a, x, b).unwrap();
        }
        o.push_str(&self.ws());
        o.push(']');
        o
    }
    fn any(&mut self, depth: usize) -> String {
        match self.r.below(if depth == 0 { 5 } else { 7 }) {
            0 => "null".into(),
            1 => "true".into(),
            2 => self.r.next().to_string(),
            3 => "-1.5e3".into(),
            4 => self.s("ex\"tra"),
            5 => {
                let n = self.r.below(3);
                let v = (0..n).map(|_| self.any(depth - 1)).collect();
                self.arr(v)
            }
            _ => {
                let n = self.r.below(3);
                let v = (0..n).map(|i| (format!("k{}", i), self.any(depth - 1))).collect();
                self.obj(v, false)
            }
        }
    }
}

const TRAPS: &[&str] = &[
    "#", "#1", "[version='>1']", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{feff}", "\0", "\u{301}", ".", "..", "/", "//", "\\", "*", "?", "%20", "&amp;", "null", "None", "true", "nan", "0", "-", "_", "~", "@", ":", ";", "==", ">=1", "<2", "=", "!", "|", ",", "(", ")", "'", "\"", "`", "$x", "${x}", "{}", "[]",
];

fn text(r: &mut Rng, c: &Ctx) -> String {
    if r.chance(10) {
        // a plain word with something at one of its ends or inside
        let w = word(r, c, PLAIN);
        let t = new_word(r, c, 40).unwrap_or_else(|| r.pick(TRAPS).to_string());
        return match r.below(5) {
            0 => format!("{}{}", t, w),
            1 => format!("{}{}{}", w, t, w),
            2 => t,
            3 => format!("{}{}", flip_case(r, &w), t),
            _ => format!("{}{}", w, t),
        };
    }
    if r.chance(15) {
        // a digest, in either case
        let n = *r.pick(&[8, 31, 32, 33, 63, 64, 65]);
        let t: String = (0..n).map(|_| *r.pick(&['0', '1', '9', 'a', 'b', 'e', 'f', 'A', 'F'])).collect();
        return if r.chance(50) { t.to_lowercase() } else { t };
    }
    if let Some(n) = near_new(r, c, 4) {
        if n < 3000 {
            return "xy日".chars().cycle().take(n).collect();
        }
    }
    match r.below(8) {
        0 => String::new(),
        1 => (0..r.range(1, 6)).map(|_| *r.pick(&['é', '"', '\\', '\n', '/', '😀', '\u{0}', '\u{2028}', 'a', ' '])).collect(),
        2 if r.chance(1) => {
            // longer than any buffer, and out of step with it
            let k = r.range(1000, 140_000);
            format!("{}{}", &"abc"[..r.below(4)], "é日😀x".repeat(k / 10))
        }
        2 => "x".repeat(r.range(30, 400)),
        _ => format!("{}-{}", word(r, c, PLAIN), number(r, c)),
    }
}

fn fname(r: &mut Rng, c: &Ctx, i: usize) -> String {
    match r.below(10) {
        0 => format!("{}{}", text(r, c), i),
        1 if r.chance(20) => format!("{}{}{}", i, word(r, c, PLAIN), text(r, c)),
        _ => format!("{}-{}-{}_{}.{}", word(r, c, PLAIN), version(r, c, Opt { long: false, ..SPEC }), "py37", i, r.pick(&["tar.bz2", "conda"])),
    }
}

const REC: [&str; 9] = ["build", "build_number", "depends", "md5", "name", "sha256", "size", "timestamp", "version"];
const TOP: [&str; 5] = ["info", "packages", "packages.conda", "repodata_version", "removed"];

/// what to do to one generated file
#[derive(Clone, Copy, PartialEq)]
pub enum Harm {
    None,
    DropTop,
    DropField,
    WrongType,
    BadNumber,
    BadVersion,
    WrongTop,
    Element,
}

pub fn document(c: &Ctx, r: &mut Rng, harm: Harm) -> String {
    let shuffle = r.chance(50);
    let esc = if r.chance(30) { 15 } else { 0 };
    let blank = *r.pick(&[0, 0, 30, 90]);
    let many = match r.below(40) {
        0 if r.chance(3) => r.range(1000, 2600),
        0 => r.range(60, 200),
        1..=5 => r.range(8, 40),
        6 => near_new(r, c, 60).map_or(3, |n| n.min(if r.chance(5) { 3000 } else { 70 })),
        _ => r.below(6),
    };
    let n = if matches!(harm, Harm::None | Harm::DropTop | Harm::WrongTop) { many } else { many.clamp(1, 8) };
    let victim = r.below(n.max(1));
    let vfield = *r.pick(&REC);
    let bad_top = *r.pick(&TOP);
    let extra = r.chance(40);
    let split = r.below(3);
    let mut names: Vec<String> = vec![];
    let mut pk: Vec<(String, String)> = vec![];
    let mut pc: Vec<(String, String)> = vec![];
    for i in 0..n {
        let name = fname(r, c, i);
        let (build, md5, sha, pname) = (text(r, c), text(r, c), text(r, c), text(r, c));
        let ver = version(r, c, PLAIN);
        let nd = if let Some(n) = near_new(r, c, 4) { n.min(if many < 50 { 400 } else { 20 }) } else if r.chance(5) { r.range(20, 90) } else if n < 50 && r.below(2000) == 0 { r.range(256, 1500) } else { r.below(5) };
        let deps: Vec<String> = (0..nd).map(|_| if r.chance(50) || c.real_specs.is_empty() { text(r, c) } else { format!("x {}", r.pick(&c.real_specs)) }).collect();
        let bn = match r.below(4) {
            0 => r.below(65536) as u64,
            1 => int_value(r, c).min(65535),
            _ => *r.pick(&[0u64, 1, 2, 10, 127, 128, 255, 256, 1000, 9999, 32767, 32768, 65534, 65535]),
        };
        let size = match r.below(4) {
            0 => r.next() >> r.below(64),
            1 => int_value(r, c),
            _ => *r.pick(&[0u64, 1, 4095, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, u64::MAX - 1, u64::MAX]),
        };
        let ts = match r.below(4) {
            0 => r.next() >> r.below(64),
            1 => int_value(r, c),
            _ => *r.pick(&[0u64, 1, 999999999, 1234567890, 1500000000, 1500000000000, 1595440000123, 1595440000123456, 253402300799, 253402300800, 4294967295, 4294967296, 9007199254740993, u64::MAX]),
        };
        let hurt = i == victim;
        let mut w = W { r, esc, blank };
        let dd: Vec<String> = deps.iter().map(|d| w.s(d)).collect();
        let mut f: Vec<(String, String)> = vec![
            ("build".into(), w.s(&build)),
            ("build_number".into(), bn.to_string()),
            ("depends".into(), w.arr(dd)),
            ("md5".into(), w.s(&md5)),
            ("name".into(), w.s(&pname)),
            ("sha256".into(), w.s(&sha)),
            ("size".into(), size.to_string()),
            ("timestamp".into(), ts.to_string()),
            ("version".into(), w.s(&ver)),
        ];
        if extra {
            for k in ["license", "subdir", "noarch", "constrains", "track_features"] {
                if w.r.chance(40) {
                    let v = w.any(2);
                    f.push((k.into(), v));
                }
            }
            if w.r.chance(40) {
                // a field that is called almost like a known one
                let known = *w.r.pick(&REC);
                let k = match w.r.below(8) {
                    0 => known.to_uppercase(),
                    1 => known.replace('_', "-"),
                    2 => known.replace('_', ""),
                    3 => format!("{}s", known),
                    4 => format!("{} ", known),
                    5 => known[..known.len() - 1].to_string(),
                    6 => format!("_{}", known),
                    _ => w.r.pick(&["depend", "dependencies", "requires", "buildNumber", "build_string", "sha-256", "sha", "md5sum", "checksum", "hash", "legacy_bz2_size", "legacy_bz2_md5", "legacy_bz2_sha256", "time", "date", "mtime", "filename", "fn", "package", "ver", "pkg_version", ""]).to_string(),
                };
                let k = new_word(w.r, c, 30).unwrap_or(k);
                if !REC.contains(&k.as_str()) {
                    let v = w.any(2);
                    f.push((k, v));
                }
            }
        }
        if hurt {
            match harm {
                Harm::DropField => f.retain(|x| x.0 != vfield),
                Harm::WrongType => {
                    let x = f.iter_mut().find(|x| x.0 == vfield).unwrap();
                    let s = x.1.starts_with('"');
                    x.1 = match w.r.below(4) {
                        0 => "null".into(),
                        1 => "{}".into(),
                        2 => if s { "7".into() } else { "\"7\"".into() },
                        _ => "true".into(),
                    };
                }
                Harm::BadNumber => {
                    let k = *w.r.pick(&["build_number", "size", "timestamp"]);
                    let x = f.iter_mut().find(|x| x.0 == k).unwrap();
                    x.1 = if k == "build_number" { w.r.pick(&["65536", "-1", "1.5", "1.0", "1e2", "70000", "131072", "4294967296", "4294967297", "18446744073709551617"]).to_string() } else { w.r.pick(&["-1", "0.5", "5.0", "1e3", "-0.0", "18446744073709551616", "18446744073709551617", "36893488147419103232", "1e400000000000"]).to_string() };
                    if x.1.starts_with("1e4") {
                        x.1 = "-5".into();
                    }
                }
                Harm::Element => {
                    let x = f.iter_mut().find(|x| x.0 == "depends").unwrap();
                    let bad = *w.r.pick(&["1", "null", "[]", "{}", "true", "[\"a\"]"]);
                    let at = w.r.below(nd + 1);
                    let mut dd: Vec<String> = deps.iter().map(|d| w.s(d)).collect();
                    dd.insert(at, bad.to_string());
                    x.1 = w.arr(dd);
                }
                Harm::BadVersion => {
                    let x = f.iter_mut().find(|x| x.0 == "version").unwrap();
                    x.1 = w.r.pick(&["\"1!2!3\"", "\"1+2+3\"", "\"a!1\"", "\"99999!1\"", "\"!1\"", "\"1+2!3\"", "\"1++2\"", "\"!!\"", "\"32768!1.0\"", "\" 1!2\"", "\"1.0!2\"", "\"1 !2\"", "\"+a+\""]).to_string();
                }
                _ => {}
            }
        }
        let body = w.obj(f, shuffle);
        let to_conda = match split {
            0 => false,
            1 => true,
            _ => r.chance(50),
        };
        if to_conda { pc.push((name.clone(), body)) } else { pk.push((name.clone(), body)) }
        names.push(name);
    }
    if r.chance(10) && !pk.is_empty() {
        // the same file name in both tables is legal
        let x = pk[0].clone();
        if !pc.iter().any(|y| y.0 == x.0) {
            pc.push(x);
        }
    }
    let nrem = if let Some(n) = near_new(r, c, 10) { n.min(100) } else if r.chance(10) { r.range(10, 60) } else { r.below(4) };
    let mut removed: Vec<String> = (0..nrem).map(|i| fname(r, c, 1000 + i)).collect();
    if nrem > 0 && r.chance(20) {
        let x = r.pick(&removed).clone();
        removed.insert(r.below(nrem), x);
    }
    let subdir = text(r, c);
    let rv = *r.pick(&[0u8, 1, 2, 127, 128, 255]);
    let mut w = W { r, esc, blank };
    let rem: Vec<String> = removed.iter().map(|x| w.s(x)).collect();
    let mut info = vec![("subdir".to_string(), w.s(&subdir))];
    if extra {
        let v = w.any(2);
        info.push(("arch".into(), v));
    }
    let mut top: Vec<(String, String)> = vec![
        ("info".into(), w.obj(info, shuffle)),
        ("packages".into(), w.obj(pk, shuffle)),
        ("packages.conda".into(), w.obj(pc, shuffle)),
        ("repodata_version".into(), rv.to_string()),
        ("removed".into(), w.arr(rem)),
    ];
    if harm == Harm::DropTop {
        top.retain(|x| x.0 != bad_top);
    }
    if harm == Harm::WrongTop {
        let x = top.iter_mut().find(|x| x.0 == bad_top).unwrap();
        x.1 = match bad_top {
            "info" => w.r.pick(&["null", "{}", "7", "\"x\"", "{\"subdir\":null}", "{\"subdir\":7}", "{\"Subdir\":\"x\"}", "true"]),
            "repodata_version" => w.r.pick(&["null", "\"1\"", "256", "-1", "1.0", "1.5", "[1]", "true", "{}", "4294967297"]),
            "removed" => w.r.pick(&["null", "{}", "[1]", "[null]", "[\"a\",7]", "[[\"a\"]]", "\"a\"", "7"]),
            _ => w.r.pick(&["null", "[]", "7", "\"x\"", "{\"a\":null}", "{\"a\":{}}", "{\"a\":7}", "{\"a\":\"b\"}", "true"]),
        }
        .to_string();
    }
    if extra {
        let v = w.any(3);
        top.push(("signatures".into(), v));
    }
    let (a, b) = (w.ws(), w.ws());
    format!("{}{}{}", a, w.obj(top, shuffle), b)
}

pub fn gen_doc(c: &Ctx, r: &mut Rng) -> Case {
    Case::new("doc", vec![document(c, r, Harm::None)])
}

pub fn gen_damage(c: &Ctx, r: &mut Rng) -> Case {
    match r.below(15) {
        11 => Case::new("bad", vec![hex(document(c, r, Harm::WrongTop).as_bytes())]),
        12 => Case::new("bad", vec![hex(document(c, r, Harm::Element).as_bytes())]),
        13 => {
            // what lenient readers take: no JSON
            let d = document(c, r, Harm::None);
            let mut b = d.into_bytes();
            let spots: Vec<usize> = (0..b.len()).filter(|i| b"{}[],:0123456789\"".contains(&b[*i])).collect();
            let i = *r.pick(&spots);
            let put: &[u8] = match r.below(12) {
                0 => b"\xef\xbb\xbf",
                1 => b"//x\n",
                2 => b"/*x*/",
                3 => b"#x\n",
                4 => b"+",
                5 => b"0",
                6 => b"-",
                7 => b"'",
                8 => b"\x0b",
                9 => b"\xc2\xa0",
                10 => b".0",
                _ => b",",
            };
            let i = if r.chance(15) { 0 } else { i };
            b.splice(i..i, put.iter().copied());
            Case::new("any", vec![hex(&b)])
        }
        0 => Case::new("bad", vec![hex(document(c, r, Harm::DropTop).as_bytes())]),
        1 => Case::new("bad", vec![hex(document(c, r, Harm::DropField).as_bytes())]),
        2 => Case::new("bad", vec![hex(document(c, r, Harm::WrongType).as_bytes())]),
        3 => Case::new("bad", vec![hex(document(c, r, Harm::BadNumber).as_bytes())]),
        4 => Case::new("bad", vec![hex(document(c, r, Harm::BadVersion).as_bytes())]),
        5 | 6 => {
            // crash while writing: only a prefix arrived
            let d = document(c, r, Harm::None);
            let b = d.trim_end().as_bytes();
            let k = if r.chance(30) { b.len() - 1 - r.below(b.len().min(40)) } else { r.below(b.len()) };
            Case::new("bad", vec![hex(&b[..k])])
        }
        7 => {
            // lost block: zeros, or a hole
            let d = document(c, r, Harm::None);
            let mut b = d.into_bytes();
            let i = r.below(b.len());
            let k = r.range(1, 64).min(b.len() - i);
            if r.chance(50) {
                for x in &mut b[i..i + k] {
                    *x = 0
                }
            } else {
                b.drain(i..i + k);
            }
            Case::new("any", vec![hex(&b)])
        }
        8 => {
            let d = document(c, r, Harm::None);
            let mut b = d.into_bytes();
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            Case::new("any", vec![hex(&b)])
        }
        9 => {
            // an old tail or a second copy after the end
            let d = document(c, r, Harm::None);
            let mut b = d.clone().into_bytes();
            match r.below(4) {
                0 => b.extend_from_slice(d.as_bytes()),
                1 => b.extend_from_slice(&d.as_bytes()[r.below(d.len())..]),
                2 => b.push(*r.pick(b"}]x0,\0\"")),
                _ => b.push(0xff),
            }
            Case::new("any", vec![hex(&b)])
        }
        10 => {
            let d = document(c, r, Harm::None);
            let mut b = d.into_bytes();
            let i = r.below(b.len());
            b.insert(i, *r.pick(&[0xff, 0xfe, 0x80, 0xc0, b'"', b'{', b'}', b',', b':', b'1', 0]));
            Case::new("any", vec![hex(&b)])
        }
        _ => Case::new("path", vec![r.pick(&["missing", "directory", "missing/deeper", "", "nul\0name", "empty", "dangling", "loop", "closed", "directory/"]).to_string()]),
    }
}

/// every prefix of a few files
pub fn enum_damage(c: &Ctx, seed: u64, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut r = Rng::new(&[seed, 0xD0C]);
    for _ in 0..if thorough { 12 } else { 4 } {
        let d = loop {
            let d = document(c, &mut r, Harm::None);
            if d.len() > 500 && d.len() < 6000 {
                break d;
            }
        };
        let b = d.trim_end().as_bytes();
        for k in 0..b.len() {
            v.push(Case::new("bad", vec![hex(&b[..k])]));
        }
    }
    for p in ["missing", "directory", "missing/deeper", "", "nul\0name", "empty", "dangling", "loop"] {
        v.push(Case::new("path", vec![p.into()]));
    }
    if let Ok(b) = std::fs::read(&c.repodata_path) {
        for _ in 0..if thorough { 400 } else { 60 } {
            v.push(Case::new("realcut", vec![r.below(b.len() - 2).to_string()]));
            v.push(Case::new("realflip", vec![r.below(b.len()).to_string(), r.below(8).to_string()]));
        }
    }
    v
}

type Rec = (String, u64, Vec<String>, String, String, String, u64, u64, String);
#[derive(PartialEq, Debug)]
struct Doc {
    subdir: String,
    packages: BTreeMap<String, Rec>,
    conda: BTreeMap<String, Rec>,
    version: u64,
    removed: Vec<String>,
}

enum Want {
    Doc(Doc),
    Refuse(String),
    Unclear,
}

fn s(v: &Value, k: &str) -> Result<String, String> {
    v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string()).ok_or(format!("no text {:?}", k))
}
fn n(v: &Value, k: &str, max: u64) -> Result<u64, String> {
    v.get(k).and_then(|x| x.as_u64()).filter(|x| *x <= max).ok_or(format!("no number {:?} up to {}", k, max))
}
fn list(v: &Value, k: &str) -> Result<Vec<String>, String> {
    v.get(k).and_then(|x| x.as_array()).and_then(|a| a.iter().map(|x| x.as_str().map(|y| y.to_string())).collect()).ok_or(format!("no list of texts {:?}", k))
}
fn recs(v: &Value, k: &str) -> Result<BTreeMap<String, Rec>, String> {
    let o = v.get(k).and_then(|x| x.as_object()).ok_or(format!("no table {:?}", k))?;
    let mut m = BTreeMap::new();
    for (name, x) in o {
        if x.is_array() {
            return Err("array".into());
        }
        let ver = s(x, "version")?;
        if ver.parse::<Version>().is_err() {
            return Err(format!("bad version {:?}", ver));
        }
        m.insert(name.clone(), (s(x, "build")?, n(x, "build_number", 65535)?, list(x, "depends")?, s(x, "md5")?, s(x, "name")?, s(x, "sha256")?, n(x, "size", u64::MAX)?, n(x, "timestamp", u64::MAX)?, ver));
    }
    Ok(m)
}

/// does some object name a key twice? Which of the two counts is nobody's promise.
struct Twice(bool);
impl<'de> serde::Deserialize<'de> for Twice {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Twice, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Twice;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, _: bool) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_i64<E>(self, _: i64) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_u64<E>(self, _: u64) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_f64<E>(self, _: f64) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_str<E>(self, _: &str) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_unit<E>(self) -> Result<Twice, E> { Ok(Twice(false)) }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Twice, A::Error> {
                let mut t = false;
                while let Some(x) = a.next_element::<Twice>()? {
                    t |= x.0;
                }
                Ok(Twice(t))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Twice, A::Error> {
                let mut t = false;
                let mut seen = std::collections::HashSet::new();
                while let Some((k, x)) = a.next_entry::<String, Twice>()? {
                    t |= x.0 | !seen.insert(k);
                }
                Ok(Twice(t))
            }
        }
        d.deserialize_any(V)
    }
}

fn expect(bytes: &[u8]) -> Want {
    let t = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Want::Refuse("it is not UTF-8".into()),
    };
    if serde_json::from_str::<serde::de::IgnoredAny>(t).is_err() {
        return Want::Refuse("it is not a JSON document".into());
    }
    let v: Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(_) => return Want::Unclear,
    };
    if serde_json::from_str::<Twice>(t).map_or(true, |x| x.0) {
        return Want::Unclear;
    }
    // derived readers also take a struct as an array of its fields: not ours to judge
    let arr = |v: &Value| v.is_array() || v.get("info").map_or(false, |x| x.is_array()) || ["packages", "packages.conda"].iter().any(|k| v.get(k).and_then(|x| x.as_object()).map_or(false, |o| o.values().any(|x| x.is_array())));
    if arr(&v) {
        return Want::Unclear;
    }
    let build = || -> Result<Doc, String> {
        let info = v.get("info").ok_or("no info")?;
        Ok(Doc { subdir: s(info, "subdir")?, packages: recs(&v, "packages")?, conda: recs(&v, "packages.conda")?, version: n(&v, "repodata_version", 255)?, removed: list(&v, "removed")? })
    };
    match build() {
        Ok(d) => Want::Doc(d),
        Err(e) => Want::Refuse(e),
    }
}

fn got_recs<'a>(m: impl IntoIterator<Item = (&'a String, &'a Record)>) -> BTreeMap<String, Rec> {
    m.into_iter().map(|(k, r)| (k.clone(), (r.build.clone(), r.build_number as u64, r.depends.clone(), r.md5.clone(), r.name.clone(), r.sha256.clone(), r.size as u64, r.timestamp as u64, r.version.as_str().to_string()))).collect()
}

fn diff(a: &BTreeMap<String, Rec>, b: &BTreeMap<String, Rec>) -> Option<String> {
    for (k, x) in a {
        match b.get(k) {
            None => return Some(format!("record {:?} is lost", k)),
            Some(y) if x != y => return Some(format!("record {:?} reads {:?} instead of {:?}", k, y, x)),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("record {:?} appears from nowhere", k))
}

fn brief(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let head: String = t.chars().take(60).collect();
    let skip = t.chars().count().saturating_sub(60);
    let tail: String = t.chars().skip(skip).collect();
    format!("{} bytes, {:?} … {:?}", b.len(), head, tail)
}

fn judge(path: &str, bytes: &[u8], must_fail: bool, must_load: bool, o: &mut Obs) -> Verdict {
    let want = expect(bytes);
    let got = read_repodata(path);
    match (got, want) {
        (Ok(g), Want::Doc(d)) => {
            if must_fail {
                return Bad(format!("a damaged file is read as if it were whole ({})", brief(bytes)));
            }
            o.add("records_compared", (d.packages.len() + d.conda.len()) as u64);
            o.hit("accepted");
            if g.info.subdir != d.subdir || g.repodata_version as u64 != d.version || g.removed != d.removed {
                return Bad(format!("the header reads subdir {:?}, version {}, {} removed; the file says {:?}, {}, {} removed", g.info.subdir, g.repodata_version, g.removed.len(), d.subdir, d.version, d.removed.len()));
            }
            for (what, a, b) in [("packages", &d.packages, &g.packages), ("packages.conda", &d.conda, &g.packages_conda)] {
                if let Some(e) = diff(a, &got_recs(b)) {
                    return Bad(format!("{}: {}", what, e));
                }
                for r in b.values() {
                    // the version field is a real version
                    match r.version.as_str().parse::<Version>() {
                        Ok(v) if v == r.version && format!("{:?}", v) == format!("{:?}", r.version) => {}
                        _ => return Bad(format!("the version {:?} of a record is not what parsing it gives", r.version.as_str())),
                    }
                }
            }
            if d.packages.is_empty() && d.conda.is_empty() { Trivial } else { Held }
        }
        (Ok(_), Want::Refuse(e)) => Bad(format!("a damaged file is accepted although {} ({})", e, brief(bytes))),
        (Err(e), Want::Doc(_)) => {
            if e.to_string().contains("duplicate field") && !must_load {
                return Skip;
            }
            Bad(format!("a whole file is refused: {} ({})", e, brief(bytes)))
        }
        (Err(e), Want::Refuse(_)) => {
            if must_load {
                return Skip;
            }
            let _ = e.to_string();
            o.hit("refused");
            Held
        }
        (_, Want::Unclear) => Skip,
    }
}

/// until it is dropped, this thread opens files as a user who owns none
struct AsOthers(libc::c_long);
fn others() -> Option<AsOthers> {
    if cfg!(miri) || unsafe { libc::geteuid() } != 0 {
        return None;
    }
    Some(AsOthers(unsafe { libc::syscall(libc::SYS_setfsuid, 65534) }))
}
impl Drop for AsOthers {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_setfsuid, self.0) };
    }
}

const WHOLE: &str = r#"{"info":{"subdir":"noarch"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#;

pub fn eval_repo(case: &Case, o: &mut Obs) -> Verdict {
    let dir = o.scratch.clone();
    let p = format!("{}/repodata.json", dir);
    let run = |b: &[u8], fail: bool, load: bool, o: &mut Obs| -> Verdict {
        let write = |mode: u32| {
            use std::os::unix::fs::PermissionsExt;
            std::fs::write(&p, b).and_then(|_| if cfg!(miri) { Ok(()) } else { std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)) })
        };
        // to read a file takes no right to write it
        let read_only = b.len() % 8 == 3;
        if own(|| write(if read_only { 0o444 } else { 0o644 })).is_err() {
            return Skip;
        }
        let back = if read_only { others() } else { None };
        if back.is_some() && own(|| std::fs::File::open(&p)).is_err() {
            // the scratch directory itself is not for others
            return Skip;
        }
        if back.is_some() {
            o.hit("read_without_right_to_write");
        }
        judge(&p, b, fail, load, o)
    };
    match case.kind.as_str() {
        "doc" => run(case.a[0].as_bytes(), false, true, o),
        "bad" => run(&unhex(&case.a[0]), true, false, o),
        "any" => run(&unhex(&case.a[0]), false, false, o),
        "real" => match std::fs::read(o.ctx.as_ref().map(|c| c.repodata_path.clone()).unwrap_or_default()) {
            Ok(b) => run(&b, false, true, o),
            Err(_) => Skip,
        },
        // size itself is no reason to stop
        "padded" => {
            let n: usize = case.a[0].parse().unwrap_or(0);
            let (a, z) = WHOLE.split_at(WHOLE.find(",\"repo").unwrap_or(0));
            run(format!("{}{}{}", a, " ".repeat(n), z).as_bytes(), false, true, o)
        }
        "many" => {
            let n: usize = case.a[0].parse().unwrap_or(0);
            let mut d = String::from(r#"{"info":{"subdir":"linux-64"},"packages":{"#);
            for i in 0..n {
                if i == n / 2 {
                    d.push_str(r#"},"packages.conda":{"#);
                } else if i > 0 {
                    d.push(',');
                }
                let _ = write!(d, r#""p{0}-1.{0}-0.tar.bz2":{{"build":"0","build_number":{1},"depends":["q{0} >=1"],"md5":"{0:x}","name":"p{0}","sha256":"{0:x}","size":{0},"timestamp":{0},"version":"1.{0}"}}"#, i, i % 65536);
            }
            d.push_str(r#"},"repodata_version":1,"removed":[]}"#);
            run(d.as_bytes(), false, true, o)
        }
        "realcut" | "realflip" => {
            let mut b = match std::fs::read(o.ctx.as_ref().map(|c| c.repodata_path.clone()).unwrap_or_default()) {
                Ok(b) => b,
                Err(_) => return Skip,
            };
            let i: usize = case.a[0].parse().unwrap_or(0);
            if case.kind == "realcut" {
                b.truncate(i);
                run(&b, true, false, o)
            } else {
                if i >= b.len() {
                    return Skip;
                }
                b[i] ^= 1 << case.a[1].parse::<u8>().unwrap_or(0);
                run(&b, false, false, o)
            }
        }
        "path" => {
            let sub = format!("{}/paths", dir);
            // whole files all around, none at the path that is asked for
            own(|| {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::create_dir_all(format!("{}/directory", sub));
                let _ = std::fs::write(format!("{}/empty", sub), b"");
                let _ = std::os::unix::fs::symlink("nowhere", format!("{}/dangling", sub));
                let _ = std::os::unix::fs::symlink("loop", format!("{}/loop", sub));
                for n in ["directory/repodata.json", "directory/current_repodata.json", "directory/index.json", "repodata.json", "missing.json", "missing.bak", "missing.tmp", "missing~", "empty.bak", "empty~", "empty.json", "closed"] {
                    let f = format!("{}/{}", sub, n);
                    if !std::path::Path::new(&f).exists() {
                        let _ = std::fs::write(&f, WHOLE);
                    }
                }
                if !cfg!(miri) {
                    let _ = std::fs::set_permissions(format!("{}/closed", sub), std::fs::Permissions::from_mode(0));
                }
            });
            let asked = format!("{}/{}", sub, case.a[0]);
            let back = if case.a[0] == "closed" { others() } else { None };
            if case.a[0] == "closed" && (back.is_none() || own(|| std::fs::File::open(&asked)).is_ok()) {
                return Skip;
            }
            for round in 0..2 {
                let (r, _, opened) = crate::watch::nested(|| read_repodata(&asked));
                match r {
                    Ok(_) => return Bad(format!("reading the path {:?} (no repodata there) succeeds", case.a[0])),
                    Err(e) => {
                        let _ = e.to_string();
                        o.hit("path_refused");
                    }
                }
                // whatever else it looked for is there the next time
                let more: Vec<String> = opened.into_iter().filter_map(|p| String::from_utf8(p).ok()).filter(|p| {
                    let name = p.strip_prefix(&format!("{}/", sub)).unwrap_or("");
                    !["", "missing", "dangling", "nowhere", "loop", "closed"].contains(&name) && !name.contains('/') && *p != asked && !std::path::Path::new(p).exists()
                }).collect();
                if round == 1 || more.is_empty() {
                    break;
                }
                for p in more {
                    let _ = own(|| std::fs::write(&p, WHOLE));
                }
            }
            Held
        }
        _ => Skip,
    }
}
