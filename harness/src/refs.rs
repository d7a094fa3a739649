//! Independent reference implementations used as oracles.

/// RFC 5321 reply at the start of `b`: (code, lines, bytes used). Works on bytes that are valid UTF-8 only.
pub fn ref_reply(b: &[u8]) -> Option<(u16, Vec<String>, usize)> {
    let mut pos = 0;
    let mut code: Option<u16> = None;
    let mut lines = vec![];
    loop {
        let rest = &b[pos..];
        let e = rest.windows(2).position(|w| w == b"\r\n")?;
        let line = &rest[..e];
        pos += e + 2;
        if line.len() < 3 || !line[..3].iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        if !(b'2'..=b'5').contains(&line[0]) || !(b'0'..=b'5').contains(&line[1]) {
            return None;
        }
        let c = (line[0] - b'0') as u16 * 100 + (line[1] - b'0') as u16 * 10 + (line[2] - b'0') as u16;
        if code.is_some() && code != Some(c) {
            return None;
        }
        code = Some(c);
        let (last, text) = match line.get(3) {
            None => (true, &line[3..]),
            Some(b' ') => (true, &line[4..]),
            Some(b'-') => (false, &line[4..]),
            Some(_) => return None,
        };
        lines.push(String::from_utf8(text.to_vec()).ok()?);
        if last {
            return Some((c, lines, pos));
        }
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// Strict padded base64.
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (ci, c) in s.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == s.len();
        let pad = if last { c.iter().rev().take_while(|x| **x == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut n = 0u32;
        for (i, x) in c.iter().enumerate() {
            let v = if i >= 4 - pad { 0 } else { B64.iter().position(|y| y == x)? as u32 };
            n = n << 6 | v;
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if (pad == 1 && b[2] != 0) || (pad == 2 && (b[1] != 0 || b[2] != 0)) {
            return None; // non-zero trailing bits
        }
        out.extend_from_slice(&b[..3 - pad]);
    }
    Some(out)
}

/// Contents a receiver may legitimately recover for a body: unchanged, or with its last line completed.
pub fn content_ok(body: &[u8], got: &[u8]) -> bool {
    if body.is_empty() || body.ends_with(b"\r\n") {
        return got == body;
    }
    if got.len() == body.len() + 2 && got.starts_with(body) && got.ends_with(b"\r\n") {
        return true;
    }
    body.ends_with(b"\r") && got.len() == body.len() + 1 && got.starts_with(body) && got.ends_with(b"\n")
}

/// What an address must look like to be accepted.
pub fn address_ok(s: &str) -> bool {
    s.chars().all(|c| ('!'..='~').contains(&c) && c != '<' && c != '>')
}

/// The line a mechanism answers with, `None` if it must not answer.
pub fn initial(m: crate::types::M, user: &str, secret: &str) -> Option<String> {
    use crate::types::M::*;
    match m {
        Plain => Some(b64(format!("\0{user}\0{secret}").as_bytes())),
        Xoauth2 => Some(b64(format!("user={user}\x01auth=Bearer {secret}\x01\x01").as_bytes())),
        Login => None,
    }
}

pub const USER_PROMPTS: [&str; 3] = ["User Name", "Username:", "Username"];
pub const PASS_PROMPTS: [&str; 2] = ["Password", "Password:"];

/// Answer of LOGIN to a challenge text.
pub fn login_answer(challenge_b64: &str, user: &str, secret: &str) -> Option<String> {
    let raw = unb64(challenge_b64.as_bytes())?;
    let text = std::str::from_utf8(&raw).ok()?;
    if USER_PROMPTS.contains(&text) {
        Some(b64(user.as_bytes()))
    } else if PASS_PROMPTS.contains(&text) {
        Some(b64(secret.as_bytes()))
    } else {
        None
    }
}

/// Known capabilities in EHLO lines: (pipelining, 8bitmime, smtputf8, starttls, auth mechanisms).
pub fn ref_caps(lines: &[String]) -> (bool, bool, bool, bool, Vec<crate::types::M>) {
    use crate::types::M;
    let mut r = (false, false, false, false, vec![]);
    for l in lines.iter().skip(1) {
        let mut w = l.split_whitespace();
        match w.next().map(|x| x.to_ascii_uppercase()).as_deref() {
            Some("PIPELINING") => r.0 = true,
            Some("8BITMIME") => r.1 = true,
            Some("SMTPUTF8") => r.2 = true,
            Some("STARTTLS") => r.3 = true,
            Some("AUTH") => {
                for m in w {
                    let u = m.to_ascii_uppercase();
                    for k in M::ALL {
                        if u == k.name() && !r.4.contains(&k) {
                            r.4.push(k);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    r.4.sort();
    r
}
