//! Literals of the library's source, mixed into what is generated. A condition on a particular text or number is then
//! reached about as easily as any other. This only steers generation: no verdict depends on it.
use proptest::prelude::*;
use proptest::sample::select;
use std::sync::OnceLock;

pub struct Dict {
    pub strings: Vec<Vec<u8>>,
    pub ints: Vec<u32>,
    /// Numbers above 100 000, for sizes.
    pub big: Vec<u32>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict { strings: vec![], ints: vec![], big: vec![] };
        let mut files: Vec<_> = std::fs::read_dir("/repo/src").map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().map_or(false, |x| x == "rs") {
                if let Ok(s) = std::fs::read_to_string(&f) {
                    scan(&s, &mut d);
                }
            }
        }
        d.strings.sort();
        d.strings.dedup();
        d.strings.retain(|s| !s.is_empty() && s.len() <= 64);
        d.ints.sort();
        d.ints.dedup();
        d.big = d.ints.iter().copied().filter(|n| *n > 100_000 && *n <= 4_500_000).collect();
        d.ints.retain(|n| *n <= 100_000);
        if d.strings.is_empty() {
            d.strings.push(b"x".to_vec());
        }
        if d.ints.is_empty() {
            d.ints.push(1);
        }
        d
    })
}

/// Reads an escape after the backslash at `i - 1`; gives what it means and where it ends.
fn escape(b: &[u8], i: usize) -> (Vec<u8>, usize) {
    match b.get(i) {
        Some(b'n') => (vec![b'\n'], i + 1),
        Some(b'r') => (vec![b'\r'], i + 1),
        Some(b't') => (vec![b'\t'], i + 1),
        Some(b'0') => (vec![0], i + 1),
        Some(b'x') => match b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()) {
            Some(v) => (vec![v], i + 3),
            None => (vec![], i + 1),
        },
        Some(b'u') => {
            let end = b[i..].iter().position(|c| *c == b'}').map_or(b.len(), |n| i + n);
            let c = b.get(i + 2..end).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
            (c.map(|c| c.to_string().into_bytes()).unwrap_or_default(), (end + 1).min(b.len()))
        }
        Some(b'\n') => {
            let mut j = i + 1;
            while b.get(j).map_or(false, |c| c.is_ascii_whitespace()) {
                j += 1;
            }
            (vec![], j)
        }
        Some(c) => (vec![*c], i + 1),
        None => (vec![], i),
    }
}

/// A rough scanner of Rust text, without the tests.
fn scan(s: &str, d: &mut Dict) {
    let s = s.find("#[cfg(test)]\nmod").map_or(s, |n| &s[..n]);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                i += 1;
            }
        } else if c == b'"' {
            let raw = i > 0 && (b[i - 1] == b'r' || b[i - 1] == b'#');
            let mut v = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && !raw {
                    let (e, j) = escape(b, i + 1);
                    v.extend(e);
                    i = j;
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            // Format strings: the pieces between the holes.
            let mut piece = vec![];
            let mut hole = false;
            for x in &v {
                match x {
                    b'{' => hole = true,
                    b'}' => hole = false,
                    _ if !hole => {
                        piece.push(*x);
                        continue;
                    }
                    _ => continue,
                }
                d.strings.push(std::mem::take(&mut piece));
            }
            d.strings.push(piece);
            d.strings.push(v);
        } else if c == b'\'' {
            // A character, or a lifetime.
            if b.get(i + 1) == Some(&b'\\') {
                let (e, j) = escape(b, i + 2);
                d.strings.push(e);
                i = j + 1;
            } else {
                let n = s[i + 1..].chars().next().map_or(1, |c| c.len_utf8());
                if b.get(i + 1 + n) == Some(&b'\'') {
                    d.strings.push(b[i + 1..i + 1 + n].to_vec());
                    i += n + 2;
                } else {
                    i += 1;
                }
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = s[start..i].replace('_', "");
            let t = t.split(|c| c == 'u' || c == 'i').next().unwrap_or("");
            let v = match t.strip_prefix("0x") {
                Some(h) => u32::from_str_radix(h, 16),
                None => t.parse(),
            };
            if let Ok(v) = v {
                d.ints.push(v);
                d.strings.push(v.to_string().into_bytes());
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    // Products such as 64 * 1024 and shifts such as 1 << 20.
    for op in [" * ", " << "] {
        for (k, _) in s.match_indices(op) {
            let l: String = s[..k].chars().rev().take_while(|c| c.is_ascii_digit() || *c == '_').filter(|c| *c != '_').collect();
            let l: String = l.chars().rev().collect();
            let r: String = s[k + op.len()..].chars().take_while(|c| c.is_ascii_digit() || *c == '_').filter(|c| *c != '_').collect();
            if let (Ok(a), Ok(b)) = (l.parse::<u64>(), r.parse::<u32>()) {
                let v = if op == " * " { a.saturating_mul(b as u64) } else { a.checked_shl(b).unwrap_or(u64::MAX) };
                if v <= 4_500_000 {
                    d.ints.push(v as u32);
                }
            }
        }
    }
}

/// One of the strings, in some letter case.
pub fn bytes() -> BoxedStrategy<Vec<u8>> {
    let all: Vec<Vec<u8>> = dict().strings.clone();
    (select(all), 0u8..8)
        .prop_map(|(mut s, how)| {
            match how {
                0 => s.make_ascii_uppercase(),
                1 => s.make_ascii_lowercase(),
                _ => {}
            }
            s
        })
        .boxed()
}

/// One of the strings that consist of allowed characters only, alone or with something around it.
pub fn text(allowed: fn(char) -> bool, around: &'static str) -> BoxedStrategy<String> {
    let mut all: Vec<String> =
        dict().strings.iter().filter_map(|s| String::from_utf8(s.clone()).ok()).map(|s| s.chars().filter(|c| allowed(*c)).collect::<String>()).filter(|s| !s.is_empty()).collect();
    all.sort();
    all.dedup();
    if all.is_empty() {
        all.push("x".into());
    }
    (select(all.clone()), select(all), around, around, 0u8..12)
        .prop_map(|(s, s2, a, b, how)| match how {
            0 => s.to_ascii_uppercase(),
            1 => s.to_ascii_lowercase(),
            2 => format!("{s}{b}"),
            3 => format!("{a}{s}"),
            4 => format!("{a}{s}{b}"),
            5 => format!("{s}{s2}"),
            _ => s,
        })
        .boxed()
}

pub fn printable(c: char) -> bool {
    c == '\t' || !c.is_control()
}

/// About one of the numbers, from 1 to `max`.
pub fn near(max: u32) -> BoxedStrategy<u32> {
    let all: Vec<u32> = dict().ints.iter().copied().filter(|n| *n <= max).collect();
    let all = if all.is_empty() { vec![1] } else { all };
    (select(all), select(vec![0i64, 0, -1, 1, -2, 2]), 1u32..4)
        .prop_map(move |(n, d, k)| (n as i64 + d).max(1).min(max as i64) as u32 * if k == 1 && n < 300 && n * 2 <= max { 2 } else { 1 })
        .prop_map(move |n| n.clamp(1, max))
        .boxed()
}

/// The numbers that are reply codes in the range.
pub fn codes(from: u16, to: u16, otherwise: u16) -> BoxedStrategy<u16> {
    let mut all: Vec<u16> = dict().ints.iter().filter(|n| **n >= from as u32 && **n <= to as u32 && **n / 10 % 10 <= 5).map(|n| *n as u16).collect();
    if all.is_empty() {
        all.push(otherwise);
    }
    select(all).boxed()
}
