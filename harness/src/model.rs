//! Reference model of the documented version order, written from the documentation and independent
//! of the code under test: hand-rolled tokeniser, no regular expressions, big-decimal numbers.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MPart {
    Epoch(i32),
    /// decimal digits without leading zeros ("0" for zero), any length
    Int(String),
    Text(String),
    Local(String),
    Empty,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr {
    DupEpoch,
    DupLocal,
    BadEpoch,
}

fn parse_epoch(s: &str) -> Option<i32> {
    let (neg, digits) = if let Some(r) = s.strip_prefix('-') {
        (true, r)
    } else if let Some(r) = s.strip_prefix('+') {
        (false, r)
    } else {
        (false, s)
    };
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let t = digits.trim_start_matches('0');
    if t.len() > 5 {
        return None;
    }
    let n: i32 = if t.is_empty() { 0 } else { t.parse().ok()? };
    let n = if neg { -n } else { n };
    if (-32768..=32767).contains(&n) { Some(n) } else { None }
}

pub fn norm_int(s: &str) -> String {
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

/// Tokenise; only ASCII digits count as digits (generators that feed this keep other digits out).
pub fn tokenise(s: &str) -> Result<Vec<MPart>, MErr> {
    let mut out = vec![];
    let bangs = s.chars().filter(|c| *c == '!').count();
    let rest = match bangs {
        0 => s,
        1 => {
            let i = s.find('!').unwrap();
            out.push(MPart::Epoch(parse_epoch(&s[..i]).ok_or(MErr::BadEpoch)?));
            &s[i + 1..]
        }
        _ => return Err(MErr::DupEpoch),
    };
    let pluses = rest.chars().filter(|c| *c == '+').count();
    if pluses > 1 {
        return Err(MErr::DupLocal);
    }
    let (main, local) = match rest.find('+') {
        Some(i) => (&rest[..i], &rest[i + 1..]),
        None => (rest, ""),
    };
    let mut cur = String::new();
    let mut cur_digit = false;
    let flush = |cur: &mut String, digit: bool, out: &mut Vec<MPart>| {
        if !cur.is_empty() {
            out.push(if digit { MPart::Int(norm_int(cur)) } else { MPart::Text(cur.clone()) });
            cur.clear();
        }
    };
    for c in main.chars() {
        if c == '.' || c == '_' || c == '-' {
            flush(&mut cur, cur_digit, &mut out);
            continue;
        }
        let d = c.is_ascii_digit();
        if !cur.is_empty() && d != cur_digit {
            flush(&mut cur, cur_digit, &mut out);
        }
        cur_digit = d;
        cur.push(c);
    }
    flush(&mut cur, cur_digit, &mut out);
    if !local.is_empty() {
        out.push(MPart::Local(local.to_string()));
    }
    if out.is_empty() {
        out.push(MPart::Empty);
    }
    Ok(out)
}

pub fn cmp_digits(a: &str, b: &str) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}

fn has_word(s: &str, w: &str) -> bool {
    s.to_ascii_lowercase().contains(w)
}

/// Where a place sorts: a class, and a key inside the class.
fn place(p: Option<&MPart>) -> (u8, Key) {
    match p {
        None => (3, Key::Unit),
        Some(MPart::Empty) => (0, Key::Unit),
        Some(MPart::Text(t)) => {
            if has_word(t, "post") {
                (4, Key::Unit)
            } else if has_word(t, "dev") {
                (1, Key::Unit)
            } else {
                (2, Key::Text(t.chars().flat_map(|c| c.to_lowercase()).collect()))
            }
        }
        Some(MPart::Int(d)) => {
            if d == "0" { (3, Key::Unit) } else { (6, Key::Num(d.clone())) }
        }
        Some(MPart::Local(l)) => (5, Key::Text(l.clone())),
        Some(MPart::Epoch(e)) => (7, Key::Epoch(*e)),
    }
}

#[derive(PartialEq, Eq)]
enum Key {
    Unit,
    Text(String),
    Num(String),
    Epoch(i32),
}

pub fn cmp_place(a: Option<&MPart>, b: Option<&MPart>) -> Ordering {
    let (ca, ka) = place(a);
    let (cb, kb) = place(b);
    ca.cmp(&cb).then_with(|| match (ka, kb) {
        (Key::Text(x), Key::Text(y)) => x.cmp(&y),
        (Key::Num(x), Key::Num(y)) => cmp_digits(&x, &y),
        (Key::Epoch(x), Key::Epoch(y)) => x.cmp(&y),
        _ => Ordering::Equal,
    })
}

pub fn cmp(a: &[MPart], b: &[MPart]) -> Ordering {
    let n = a.len().max(b.len());
    for i in 0..n {
        match cmp_place(a.get(i), b.get(i)) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}

/// `a` starts with `p`: every component of `p` equals the component of `a` at the same place
pub fn startswith(a: &[MPart], p: &[MPart]) -> bool {
    p.len() <= a.len() && p.iter().zip(a).all(|(x, y)| cmp_place(Some(x), Some(y)) == Ordering::Equal)
}

/// PEP 440 compatible release. None: the version does not spell out the places of the series, which
/// the documentation leaves open.
pub fn compatible(v: &[MPart], r: &[MPart]) -> Option<bool> {
    let release = r.iter().take_while(|p| matches!(p, MPart::Epoch(_) | MPart::Int(_))).count();
    let series = release.saturating_sub(1);
    if cmp(v, r) == Ordering::Less {
        return Some(false);
    }
    if v.len() < series {
        return None;
    }
    Some((0..series).all(|i| cmp_place(Some(&v[i]), Some(&r[i])) == Ordering::Equal))
}

/// Shell-style matching where only `*` is special.
pub fn glob(p: &[char], s: &[char]) -> bool {
    let mut reach = vec![false; s.len() + 1];
    reach[0] = true;
    for c in p {
        let mut next = vec![false; s.len() + 1];
        if *c == '*' {
            let mut on = false;
            for i in 0..=s.len() {
                on |= reach[i];
                next[i] = on;
            }
        } else {
            for i in 0..s.len() {
                if reach[i] && s[i] == *c {
                    next[i + 1] = true;
                }
            }
        }
        reach = next;
    }
    reach[s.len()]
}

/// A regular expression as a syntax tree, with its own matcher (sets of end positions).
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Rx {
    Lit(char),
    /// one character in another notation
    Spelled(char, u8),
    Any,
    Class(bool, Vec<(char, char)>),
    Digit,
    Seq(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, u32, Option<u32>),
}

impl Rx {
    pub fn render(&self) -> String {
        match self {
            Rx::Lit(c) => {
                if ".+*?()|[]{}^$\\-#&~".contains(*c) {
                    format!("\\{}", c)
                } else {
                    c.to_string()
                }
            }
            Rx::Spelled(c, how) => {
                let plain = Rx::Lit(*c).render();
                match how {
                    0 => format!("\\x{{{:x}}}", *c as u32),
                    1 => format!("(?:{})", plain),
                    2 => format!("({})", plain),
                    3 => format!("(?x: {} )", Rx::Spelled(*c, 0).render()),
                    4 => format!("(?-i:{})", plain),
                    5 => format!("(?:{}|{})", plain, plain),
                    6 => format!("(?:{}{{1}})", plain),
                    7 => format!("((?:{}){{1,1}}?)", plain),
                    _ => format!("[{}]", Rx::Spelled(*c, 0).render()),
                }
            }
            Rx::Any => ".".into(),
            Rx::Digit => "\\d".into(),
            Rx::Class(neg, rs) => {
                let mut s = String::from(if *neg { "[^" } else { "[" });
                for (a, b) in rs {
                    s.push(*a);
                    if a != b {
                        s.push('-');
                        s.push(*b);
                    }
                }
                s.push(']');
                s
            }
            Rx::Seq(v) => v.iter().map(|x| if matches!(x, Rx::Alt(_)) { format!("({})", x.render()) } else { x.render() }).collect(),
            Rx::Alt(v) => v.iter().map(|x| x.render()).collect::<Vec<_>>().join("|"),
            Rx::Rep(x, lo, hi) => {
                let inner = match **x {
                    Rx::Seq(_) | Rx::Alt(_) | Rx::Rep(..) => format!("(?:{})", x.render()),
                    _ => x.render(),
                };
                let q = match (lo, hi) {
                    (0, None) => "*".into(),
                    (1, None) => "+".into(),
                    (0, Some(1)) => "?".into(),
                    (l, None) => format!("{{{},}}", l),
                    (l, Some(h)) => format!("{{{},{}}}", l, h),
                };
                format!("{}{}", inner, q)
            }
        }
    }

    fn step(&self, s: &[char], at: &[bool]) -> Vec<bool> {
        let n = s.len();
        let mut out = vec![false; n + 1];
        let one = |out: &mut Vec<bool>, f: &dyn Fn(char) -> bool| {
            for i in 0..n {
                if at[i] && f(s[i]) {
                    out[i + 1] = true;
                }
            }
        };
        match self {
            Rx::Lit(c) | Rx::Spelled(c, _) => one(&mut out, &|x| x == *c),
            Rx::Any => one(&mut out, &|x| x != '\n'),
            Rx::Digit => one(&mut out, &|x| x.is_ascii_digit()),
            Rx::Class(neg, rs) => one(&mut out, &|x| rs.iter().any(|(a, b)| *a <= x && x <= *b) != *neg),
            Rx::Seq(v) => {
                let mut cur = at.to_vec();
                for x in v {
                    cur = x.step(s, &cur);
                }
                out = cur;
            }
            Rx::Alt(v) => {
                for x in v {
                    for (i, b) in x.step(s, at).into_iter().enumerate() {
                        out[i] |= b;
                    }
                }
            }
            Rx::Rep(x, lo, hi) => {
                let mut cur = at.to_vec();
                for _ in 0..*lo {
                    cur = x.step(s, &cur);
                }
                out = cur.clone();
                let more = hi.map(|h| h - lo).unwrap_or(n as u32 + 1);
                for _ in 0..more {
                    cur = x.step(s, &cur);
                    let mut grew = false;
                    for i in 0..=n {
                        if cur[i] && !out[i] {
                            out[i] = true;
                            grew = true;
                        }
                    }
                    if !grew && hi.is_none() {
                        break;
                    }
                }
            }
        }
        out
    }

    /// some match between the two ends, either of which may be left open
    pub fn find(&self, s: &str, from_start: bool, to_end: bool) -> bool {
        let s: Vec<char> = s.chars().collect();
        let mut at = vec![!from_start; s.len() + 1];
        at[0] = true;
        let out = self.step(&s, &at);
        if to_end { out[s.len()] } else { out.iter().any(|b| *b) }
    }

    pub fn full_match(&self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        let mut at = vec![false; s.len() + 1];
        at[0] = true;
        self.step(&s, &at)[s.len()]
    }
}
