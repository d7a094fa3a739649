//! Strategies. All randomness of a run comes from here.
use crate::dict;
use crate::refs;
use crate::types::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 .<>@:;,=+/_-]{0,40}",
        1 => Just(String::new()),
        1 => "[ -~\t]{0,60}",
        1 => select(vec!["250-foo", "250 ok", "-", " ", "  ", "354 go", "550", "2.1.0 Ok", "ok\tok", ".", "..", "- -"]).prop_map(String::from),
        1 => "[ -~\u{a1}-\u{17f}\u{4e00}-\u{4e40}\u{1f600}-\u{1f610}]{0,20}",
        1 => (200usize..900).prop_map(|n| "long text ".repeat(n / 10)),
        1 => dict::text(dict::printable, "[ -~]{0,5}"),
        1 => wide_text(),
    ]
    .boxed()
}

/// Characters of several bytes at every place, so that any cut at a fixed place falls inside one.
pub fn wide_text() -> BoxedStrategy<String> {
    (0usize..100, select(vec!["\u{e9}", "\u{4e00}", "\u{1f600}", "a\u{e9}\u{4e00}"]), prop_oneof![1 => 1usize..30, 1 => 1usize..300])
        .prop_map(|(n, s, k)| format!("{}{}", "t".repeat(n), s.repeat(k)))
        .boxed()
}

pub fn lines() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        6 => text().prop_map(|t| vec![t]),
        3 => vec(text(), 2..5),
        1 => vec(text(), 5..30),
    ]
    .boxed()
}

/// As above, rarely with very many or very long lines.
pub fn lines_wide() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        60 => lines(),
        1 => vec("[ -~]{0,6}", 30..300),
        1 => (dict::near(600), "[ -~]{0,6}").prop_map(|(n, s)| vec![s; n as usize]),
        1 => (dict::near(20_000), "[a-z]", lines()).prop_map(|(n, s, mut v)| {
            *v.last_mut().unwrap() = s.repeat(n as usize);
            v
        }),
        1 => ("[a-z ]{1,9}", 100usize..3000, lines()).prop_map(|(s, n, mut v)| {
            v[0] = s.repeat(n);
            v
        }),
    ]
    .boxed()
}

pub fn reply_code(code: BoxedStrategy<u16>) -> BoxedStrategy<Reply> {
    (code, lines_wide(), any::<bool>()).prop_map(|(code, lines, bare)| Reply { code, lines, bare, close: false }).boxed()
}

pub fn code_2xx() -> BoxedStrategy<u16> {
    prop_oneof![5 => Just(250u16), 1 => select(vec![200u16, 211, 214, 220, 221, 235, 251, 252]), 1 => (0u16..6, 0u16..10).prop_map(|(y, z)| 200 + 10 * y + z), 1 => dict::codes(200, 299, 250)]
        .boxed()
}

/// Rejecting codes. 421 means that the server closes the channel, so it is generated with `close` only.
pub fn code_neg() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => select(vec![450u16, 451, 452, 455, 500, 501, 503, 550, 551, 552, 553, 554, 555, 530, 535, 432, 454]),
        1 => (4u16..6, 0u16..6, 0u16..10).prop_map(|(x, y, z)| x * 100 + 10 * y + z),
        1 => dict::codes(400, 599, 550),
    ]
    .prop_map(|c| if c == 421 { 451 } else { c })
    .boxed()
}

pub fn ok() -> BoxedStrategy<Reply> {
    prop_oneof![3 => reply_code(code_2xx()), 2 => Just(Reply::new(250, "ok"))].boxed()
}
pub fn neg() -> BoxedStrategy<Reply> {
    reply_code(code_neg())
}
pub fn neg_close() -> BoxedStrategy<Reply> {
    (neg(), any::<bool>())
        .prop_map(|(mut r, b)| {
            if b {
                r.code = 421;
            }
            r.close = true;
            r
        })
        .boxed()
}
pub fn go() -> BoxedStrategy<Reply> {
    reply_code(Just(354u16).boxed())
}

pub fn address() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z0-9.]{1,12}@[a-z]{1,8}\\.[a-z]{2,3}",
        2 => "[!-;=?-~]{1,30}",
        1 => "[!-;=?-~]{1,10}@[!-;=?-~]{1,10}",
        1 => select(vec!["a", "postmaster", "\"quoted\"@x", "a@[127.0.0.1]", "a@b,c@d:e@f", "SIZE=1", "%s%n", "a\\b@c", "a@b.", ".@.", "'--", "RCPT", "MAIL", "", "@", "mailto:a@b"]).prop_map(String::from),
        1 => "[a-z]{60,200}@[a-z]{50,250}",
        1 => dict::text(|c| ('!'..='~').contains(&c) && c != '<' && c != '>', "[!-;=?-~]{0,6}"),
        1 => (dict::text(|c| ('!'..='~').contains(&c) && c != '<' && c != '>', "[a-z]{0,3}"), "[a-z]{1,5}", any::<bool>()).prop_map(|(a, b, x)| if x { format!("{a}@{b}") } else { format!("{b}@{a}") }),
        1 => (dict::near(1100), "[a-z0-9.]", 0u32..4).prop_map(|(n, s, k)| format!("{}@x", s.repeat((n + 1).saturating_sub(k).max(1) as usize))),
        // The whole RCPT or MAIL line has that length.
        1 => (dict::near(1100), "[a-z0-9.]", select(vec![10u32, 12, 12, 14, 28])).prop_map(|(n, s, k)| format!("{}@x", s.repeat(n.saturating_sub(k + 2).max(1) as usize))),
    ]
    .boxed()
}

pub fn body_tok() -> BoxedStrategy<Tok> {
    prop_oneof![
        6 => Just(Tok::Lit(b"\r\n".to_vec())),
        6 => Just(Tok::Lit(b".".to_vec())),
        3 => Just(Tok::Lit(b"\r".to_vec())),
        3 => Just(Tok::Lit(b"\n".to_vec())),
        3 => "[a-zA-Z ]{1,12}".prop_map(|s| Tok::Lit(s.into_bytes())),
        2 => Just(Tok::Lit(b"\r\n.\r\n".to_vec())),
        1 => Just(Tok::Lit(b"\r\n..\r\n".to_vec())),
        1 => select(vec!["QUIT\r\n", "MAIL FROM:<evil@x>\r\n", "RCPT TO:<evil@x>\r\n", "DATA\r\n", "Subject: x\r\n", "RSET\r\n"]).prop_map(|s| Tok::Lit(s.as_bytes().to_vec())),
        2 => vec(any::<u8>(), 1..12).prop_map(Tok::Lit),
        1 => dict::bytes().prop_map(Tok::Lit),
        1 => select(vec!["\u{feff}", "\x1a", "\0", "From ", "=\r\n", "\r\n\r\n", "\r\n ", "--\r\n", "\t\r\n", " \r\n", "Bcc: x@y\r\n", "\u{85}", "\u{2028}", "\x0b", "\x0c"]).prop_map(|s| Tok::Lit(s.as_bytes().to_vec())),
        1 => (select(vec![b'a', b'.', b'\r', b'\n', 0u8, 0xff]), 1u32..40).prop_map(|(b, n)| Tok::Fill(b, n)),
    ]
    .boxed()
}

/// Filler that puts what follows at a buffer boundary of some likely size.
pub fn boundary() -> BoxedStrategy<Tok> {
    boundary_up_to(131072)
}

pub fn boundary_up_to(max: u32) -> BoxedStrategy<Tok> {
    let sizes: Vec<u32> =
        [32u32, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072].into_iter().filter(|n| *n <= max).collect();
    prop_oneof![
        3 => (select(sizes), 0u32..10, prop_oneof![4 => Just(b'a'), 1 => Just(b'.')]).prop_map(|(n, d, b)| Tok::Fill(b, n + 4 - d)),
        1 => (dict::near(max), prop_oneof![4 => Just(b'a'), 1 => Just(b'.'), 1 => Just(b'\n'), 1 => Just(b'\r'), 1 => any::<u8>()]).prop_map(|(n, b)| Tok::Fill(b, n)),
    ]
    .boxed()
}

/// Patterns in which every place is special; with a shift, every boundary falls into every part of them.
pub fn dense(n: BoxedStrategy<u32>) -> BoxedStrategy<Vec<Tok>> {
    let pats = vec![".", "\r\n.", ".\r\n", "\r\n", "\r", "\n", "\n.", "\r.", "a.\r\n", "\r\r\n.", "\r\n..", "a\r\n.\r\n", "\r\n.\r\n", "ab", "\r\n "];
    (prop_oneof![4 => select(pats).prop_map(|p| p.as_bytes().to_vec()), 1 => vec(select(vec![b'.', b'\r', b'\n', b'a']), 1..9)], n, 0u32..9, vec(body_tok(), 0..3))
        .prop_map(|(p, n, shift, mut end)| {
            // `n` is in bytes.
            let k = n / p.len() as u32 + 1;
            end.insert(0, Tok::Rep(p, k));
            end.insert(0, Tok::Fill(b'a', shift));
            end
        })
        .boxed()
}

/// Sizes from `from` to `to` bytes, every order of magnitude about as often.
pub fn log_size(from: u32, to: u32) -> BoxedStrategy<u32> {
    ((from as f64).ln()..(to as f64).ln()).prop_map(|x| x.exp() as u32).boxed()
}

/// Bodies from 100 kB to some megabytes.
pub fn large_body() -> BoxedStrategy<Vec<Tok>> {
    let mut sizes: Vec<u32> = vec![1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 100_000, 1_000_000, 2_000_000, 4_000_000];
    for _ in 0..3 {
        sizes.extend(&dict::dict().big);
    }
    let n = || prop_oneof![2 => log_size(100_000, 4_300_000), 1 => select(sizes.clone())].boxed();
    prop_oneof![
        2 => (n(), 0u32..12, prop_oneof![3 => Just(b'a'), 1 => Just(b'.'), 1 => Just(b'\n')], vec(body_tok(), 0..12)).prop_map(|(n, d, b, mut v)| {
            v.insert(0, Tok::Fill(b, n.saturating_sub(d)));
            v
        }),
        3 => dense(n()),
        // Lines of mail.
        1 => (n(), "[ -~]{0,80}", vec(body_tok(), 0..6)).prop_map(|(n, l, mut v)| {
            let l = format!("{l}\r\n");
            let k = n / l.len() as u32;
            v.insert(0, Tok::Rep(l.into_bytes(), k));
            v
        }),
        1 => (n(), vec((boundary(), vec(body_tok(), 0..5)), 2..12)).prop_map(|(n, v)| {
            let mut v: Vec<Tok> = v.into_iter().flat_map(|(f, mut t)| {
                t.insert(0, f);
                t
            }).collect();
            v.insert(0, Tok::Fill(b'x', n / 2));
            v
        }),
    ]
    .boxed()
}

pub fn body() -> BoxedStrategy<Vec<Tok>> {
    prop_oneof![
        8 => vec(body_tok(), 0..14),
        1 => dense(log_size(8, 30_000)),
        1 => (boundary(), dense(log_size(8, 100))).prop_map(|(f, mut v)| {
            if let Tok::Fill(b, n) = f {
                v.insert(0, Tok::Fill(b, n.saturating_sub(16)));
            }
            v
        }),
        1 => vec(body_tok(), 10..60),
        1 => (boundary(), vec(body_tok(), 0..8)).prop_map(|(f, mut v)| {
            v.insert(0, f);
            v
        }),
        1 => vec((boundary_up_to(8192), vec(body_tok(), 0..5)), 2..5).prop_map(|v| v.into_iter().flat_map(|(f, mut t)| {
            t.insert(0, f);
            t
        }).collect()),
    ]
    .boxed()
}

pub fn small_body() -> BoxedStrategy<Vec<Tok>> {
    vec(body_tok(), 0..8).boxed()
}

pub fn chunks() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        2 => Just(vec![65535u16]),
        1 => Just(vec![1u16]),
        2 => vec(prop_oneof![1 => Just(0u16), 3 => 1u16..6, 2 => 1u16..200, 1 => Just(65535u16), 1 => dict::near(60_000).prop_map(|n| n as u16)], 1..6),
    ]
    .boxed()
}

/// For large bodies: few reads and writes.
pub fn large_chunks() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![2 => Just(vec![65535u16]), 1 => select(vec![vec![4096u16], vec![8192], vec![65535, 0, 1], vec![1000, 65535], vec![16384, 0]]), 1 => vec(500u16..65535, 1..4)].boxed()
}

/// `at` is to be taken modulo the length.
pub fn src_fail() -> BoxedStrategy<SrcFail> {
    (any::<u32>(), 0..ERRORS.len() as u8, any::<bool>()).prop_map(|(at, kind, once)| SrcFail { at, kind, once }).boxed()
}

pub fn source() -> BoxedStrategy<Source> {
    prop_oneof![
        3 => Just(Source::Bytes),
        2 => chunks().prop_map(|chunks| Source::Reader { chunks, fail: None }),
    ]
    .boxed()
}

pub fn net() -> BoxedStrategy<Net> {
    prop_oneof![
        2 => Just(Net::plain()),
        1 => Just(Net { hold: Some(1 << 20), ..Net::plain() }),
        4 => (prop_oneof![2 => Just(None), 2 => Just(Some(1u32 << 20)), 1 => (0u32..200).prop_map(Some)], chunks(), chunks(), vec(any::<bool>(), 1..4))
            .prop_map(|(hold, wchunks, rchunks, fpend)| Net { hold, wchunks, rchunks, fpend, win: None }),
    ]
    .boxed()
}

/// How often each step of an email is rejected.
#[derive(Clone, Copy)]
pub struct SendGen {
    pub max_rcpt: usize,
    /// Of 100 emails, how many meet some rejection.
    pub rejected: u32,
    /// Rejections may close the connection.
    pub closing: bool,
    /// Of 100 emails, how many have a failing source.
    pub failing_source: u32,
    pub small: bool,
    /// Rarely many recipients.
    pub many: bool,
}

/// Up to 300 recipients.
fn many_rcpt() -> BoxedStrategy<Vec<(String, Reply)>> {
    let n = prop_oneof![2 => 10u32..300, 1 => dict::near(700)];
    (n.prop_flat_map(|n| vec("[a-z0-9]{1,12}@[a-z]{1,8}", n as usize)), prop_oneof![1 => Just(0), 1 => 0usize..200], ok(), ok())
        .prop_map(|(v, pad, r, r2)| {
            v.into_iter().enumerate().map(|(i, a)| (format!("{}{a}", "p".repeat(pad)), if i % 7 == 3 { r2.clone() } else { r.clone() })).collect()
        })
        .boxed()
}

fn flip_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// Makes addresses of an email related to each other: repeated recipients are legal and must be kept, the sender may be a
/// recipient, and addresses that differ in letter case or by an affix are different.
fn relate(s: &mut SendOp, how: u8, k: usize) {
    let n = s.to.len();
    let (i, j) = (k % n, (k / n + 1 + k) % n);
    match how {
        0 | 1 => s.to[i].0 = s.to[j].0.clone(),
        2 => s.to[i].0 = flip_case(&s.to[j].0),
        3 => s.to[i].0 = format!("{}x", s.to[j].0),
        4 => {
            if let Some(f) = &s.from {
                s.to[i].0 = f.clone();
            }
        }
        5 => {
            if let Some(f) = &s.from {
                s.to[i].0 = flip_case(f);
            }
        }
        6 => s.from = Some(s.to[i].0.clone()),
        7 => {
            let a = s.to[i].0.clone();
            s.to.iter_mut().for_each(|x| x.0 = a.clone());
        }
        8 => {
            if let Some((l, _)) = s.to[i].0.clone().split_once('@') {
                s.to[j].0 = format!("{l}@other.example");
            }
        }
        9 => {
            if let Some((_, d)) = s.to[i].0.clone().split_once('@') {
                s.to[j].0 = format!("{k}@{d}");
            }
        }
        _ => {}
    }
}

/// Makes operations of a history related: an email is sent again, to others, or with another body; a login is repeated.
fn relate_ops(v: &mut Vec<Op>, how: u8, k: usize) {
    if v.len() < 2 {
        return;
    }
    let i = 1 + k % (v.len() - 1);
    let j = (k / 7) % i;
    let earlier = v[j].clone();
    match (how, &earlier, &mut v[i]) {
        (0, Op::Send(_), Op::Send(_)) | (0, Op::Auth { .. } | Op::TryLogin { .. }, Op::Auth { .. } | Op::TryLogin { .. }) => v[i] = earlier,
        (1, Op::Send(a), Op::Send(b)) => {
            // The same email; the server decides differently.
            let n = b.to.len();
            let to = a.to.iter().enumerate().map(|(k, x)| (x.0.clone(), b.to[k % n].1.clone())).collect();
            let fails = a.source_fails() || b.source_fails();
            *b = SendOp { from: a.from.clone(), to, body: a.body.clone(), source: if fails { Source::Bytes } else { a.source.clone() }, ..b.clone() };
        }
        (2, Op::Send(a), Op::Send(b)) => b.from = a.from.clone(),
        (3, Op::Send(a), Op::Send(b)) => {
            let n = b.to.len();
            b.to = a.to.iter().enumerate().map(|(k, x)| (x.0.clone(), b.to[k % n].1.clone())).collect();
        }
        (4, Op::Send(a), Op::Send(b)) if !b.source_fails() => b.body = a.body.clone(),
        (5, Op::Auth { creds: a, .. }, Op::Auth { creds: b, .. }) => b.user = a.user.clone(),
        (5, Op::Send(a), Op::Send(b)) => b.from = a.from.as_deref().map(flip_case),
        (6, Op::Send(a), Op::Send(b)) => b.from = a.from.as_ref().map(|f| format!("{f}x")),
        (7, Op::Send(a), Op::Send(b)) => {
            let n = b.to.len();
            b.to = a.to.iter().enumerate().map(|(k, x)| (flip_case(&x.0), b.to[k % n].1.clone())).collect();
        }
        (8, Op::Send(a), Op::Send(b)) => b.from = Some(a.to[k % a.to.len()].0.clone()),
        (9, Op::Send(a), Op::Send(b)) => {
            if let Some(f) = &a.from {
                b.to[0].0 = f.clone();
            }
        }
        (10, Op::Send(a), Op::Send(b)) if !b.source_fails() => {
            // The body starts or ends as the other one.
            let mut v = a.body.clone();
            if k % 2 == 0 {
                v.append(&mut b.body);
                b.body = v;
            } else {
                b.body.append(&mut v);
            }
        }
        (7, Op::Auth { creds: a, .. } | Op::TryLogin { creds: a, .. }, Op::Auth { creds: b, .. } | Op::TryLogin { creds: b, .. }) => {
            b.user = flip_case(&a.user);
            b.secret = a.secret.clone();
        }
        (8, Op::Auth { creds: a, .. } | Op::TryLogin { creds: a, .. }, Op::Auth { creds: b, .. } | Op::TryLogin { creds: b, .. }) => {
            b.user = a.secret.clone();
            b.secret = a.user.clone();
        }
        (9, Op::Auth { creds: a, .. } | Op::TryLogin { creds: a, .. }, Op::Auth { creds: b, .. } | Op::TryLogin { creds: b, .. }) => *b = a.clone(),
        (6, Op::Auth { creds: a, .. }, Op::TryLogin { creds: b, .. }) => *b = a.clone(),
        _ => {}
    }
}

pub fn send_op(g: SendGen) -> BoxedStrategy<SendOp> {
    let accepted = (
        proptest::option::weighted(0.85, address()),
        if g.many { prop_oneof![60 => vec((address(), ok()), 1..=g.max_rcpt), 1 => many_rcpt()].boxed() } else { vec((address(), ok()), 1..=g.max_rcpt).boxed() },
        if g.small { small_body() } else { body() },
        source(),
        ok(),
        go(),
        ok(),
    )
        .prop_map(|(from, to, body, source, mail, data, end)| SendOp { from, to, body, source, mail, data, end });
    let accepted = (accepted, 0u8..24, any::<u16>())
        .prop_map(|(mut s, how, k)| {
            relate(&mut s, how, k as usize);
            s
        })
        .boxed();
    let neg_any = if g.closing { prop_oneof![4 => neg(), 1 => neg_close()].boxed() } else { neg() };
    let rejected = (accepted.clone(), vec((any::<u16>().prop_map(usize::from), 0u8..6, neg_any), 1..4))
        .prop_map(|(mut s, rs)| {
            for (k, which, r) in rs {
                match which {
                    0 => s.mail = r,
                    1 | 2 | 3 => {
                        let n = s.to.len();
                        s.to[k % n].1 = r;
                    }
                    4 => s.data = r,
                    _ => s.end = r,
                }
            }
            s
        })
        .boxed();
    let failing = (prop_oneof![3 => accepted.clone(), 1 => rejected.clone()], chunks(), src_fail())
        .prop_map(|(mut s, chunks, f)| {
            let n = toks_bytes(&s.body).len() as u32;
            s.source = Source::Reader { chunks, fail: Some(SrcFail { at: f.at % (n + 1), ..f }) };
            s
        })
        .boxed();
    let a = 100u32.saturating_sub(g.rejected + g.failing_source).max(1);
    if g.rejected == 0 && g.failing_source == 0 {
        return accepted;
    }
    if g.failing_source == 0 {
        return prop_oneof![a => accepted, g.rejected => rejected].boxed();
    }
    prop_oneof![a => accepted, g.rejected.max(1) => rejected, g.failing_source => failing].boxed()
}

fn cred_size() -> BoxedStrategy<u32> {
    prop_oneof![
        40 => dict::near(3000),
        2 => log_size(100, 3000),
        1 => dict::near(30_000),
        1 => (select(vec![128u32, 256, 512, 768, 1024, 2048, 4096, 6144, 8192, 9216, 12288, 16384, 49152, 65536]), 0u32..6).prop_map(|(n, d)| n + 3 - d),
        1 => log_size(1000, 70_000),
    ]
    .boxed()
}

pub fn cred_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9.@_-]{0,20}",
        2 => "[ -~]{0,30}",
        1 => "[ -~\u{a1}-\u{17f}\u{4e00}-\u{4e40}\u{1f600}-\u{1f610}\r\n\t]{0,20}",
        1 => select(vec!["", "Username:", "Password:", "*", "==", " ", "AHVzZXI=", "user=x", "\r\nQUIT"]).prop_map(String::from),
        1 => "[a-zA-Z0-9+/=]{60,600}",
        1 => dict::text(|_| true, "[ -~]{0,5}"),
        1 => wide_text(),
        1 => (cred_size(), "[ -~\u{e9}\u{4e00}]").prop_map(|(n, s)| s.repeat(n as usize)),
    ]
    .boxed()
}

pub fn creds() -> BoxedStrategy<Creds> {
    (cred_text(), cred_text()).prop_map(|(user, secret)| Creds { user, secret }).boxed()
}

pub fn challenge(text: &[u8]) -> Reply {
    Reply::new(334, &refs::b64(text))
}

pub fn good_challenge() -> BoxedStrategy<Reply> {
    prop_oneof![
        1 => select(refs::USER_PROMPTS.to_vec()),
        1 => select(refs::PASS_PROMPTS.to_vec()),
    ]
    .prop_map(|p| challenge(p.as_bytes()))
    .boxed()
}

/// Nearly a known prompt.
pub fn near_prompt() -> BoxedStrategy<String> {
    let prompts: Vec<&str> = refs::USER_PROMPTS.iter().chain(&refs::PASS_PROMPTS).copied().collect();
    let c = prop_oneof![4 => select(vec!['\0', ' ', ':', '\t', '\n', '\r', '\u{a0}', '\u{feff}', '\u{200b}', '?', '.', '>', '-', '_', '"', '\x01', '\x7f']), 1 => any::<char>()];
    (select(prompts), 0u8..9, c, any::<u16>())
        .prop_map(|(p, how, c, k)| {
            let v: Vec<char> = p.chars().collect();
            let k = k as usize % v.len();
            match how {
                0 => format!("{p}{c}"),
                1 => format!("{c}{p}"),
                2 => format!("{p}\r\n"),
                3 => v.iter().enumerate().map(|(i, x)| if i == k { c } else { *x }).collect(),
                4 => v.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, x)| *x).collect(),
                5 => v.iter().enumerate().map(|(i, x)| if i == k && x.is_ascii_alphabetic() { (*x as u8 ^ 32) as char } else { *x }).collect(),
                6 => if k % 2 == 0 { p.to_ascii_uppercase() } else { p.to_ascii_lowercase() },
                7 => format!("{}{c}{}", &p[..k], &p[k..]),
                _ => p[..k].to_string(),
            }
        })
        .boxed()
}

pub fn bad_challenge() -> BoxedStrategy<Reply> {
    prop_oneof![
        3 => select(vec!["Token:", "PIN", "Passcode", "Passwordless token", "Password hint:", "UsernamePassword", "Username or email", "Who are you", "User", "Pass", "OTP", "Password:Password:", "Secret", "Account"])
            .prop_map(|s| challenge(s.as_bytes())),
        2 => dict::text(|_| true, "[ -~]{0,5}").prop_map(|b| challenge(b.as_bytes())),
        3 => near_prompt().prop_map(|b| challenge(b.as_bytes())),
        1 => dict::text(dict::printable, "[ -~]{0,5}").prop_map(|s| Reply::new(334, &s)),
        1 => vec(any::<u8>(), 1..20).prop_map(|b| challenge(&b)),
        1 => prop_oneof![1 => wide_text(), 1 => text()].prop_map(|b| challenge(b.as_bytes())),
        1 => vec(0x80u8..=0xff, 1..9).prop_map(|b| challenge(&b)),
        2 => select(vec!["!!!!", "VXNlcm5hbWU6=", "====", "A", "VXNl*m5hbWU6", "UGFzc3dvcmQ6\u{e9}", "Username:", "Password:"]).prop_map(|s| Reply::new(334, s)),
        1 => (any::<bool>(), 0usize..3).prop_map(|(bare, n)| Reply { code: 334, lines: vec![" ".repeat(n)], bare, close: false }),
    ]
    .prop_filter("is a known prompt", |r| {
        r.lines[0].split_whitespace().next().and_then(|w| refs::login_answer(w, "", "")).is_none()
    })
    .boxed()
}

pub fn final_auth() -> BoxedStrategy<Reply> {
    prop_oneof![3 => Just(Reply::new(235, "2.7.0 Authentication successful")), 1 => reply_code(code_2xx()), 2 => neg(), 1 => Just(Reply::new(535, "5.7.8 bad credentials"))].boxed()
}

pub fn auth_steps() -> BoxedStrategy<Vec<Reply>> {
    let good = vec(good_challenge(), 0..5);
    prop_oneof![
        3 => final_auth().prop_map(|f| vec![f]),
        4 => (good.clone(), final_auth()).prop_map(|(mut v, f)| { v.push(f); v }),
        3 => (Just(vec![challenge(b"Username:"), challenge(b"Password:")]), final_auth()).prop_map(|(mut v, f)| { v.push(f); v }),
        3 => (good, bad_challenge(), final_auth()).prop_map(|(mut v, b, f)| { v.push(b); v.push(f); v }),
        1 => (vec(good_challenge(), 5..9), final_auth()).prop_map(|(mut v, f)| { v.push(f); v }),
        1 => (vec(good_challenge(), 1..3), prop_oneof![3 => 10usize..40, 1 => 65usize..150], final_auth()).prop_map(|(v, n, f)| {
            let mut v: Vec<Reply> = v.into_iter().cycle().take(n).collect();
            v.push(f);
            v
        }),
    ]
    .boxed()
}

pub fn any_mech() -> BoxedStrategy<M> {
    select(M::ALL.to_vec()).boxed()
}

pub fn auth_op() -> BoxedStrategy<Op> {
    (any_mech(), creds(), auth_steps()).prop_map(|(mech, creds, steps)| Op::Auth { mech, creds, steps }).boxed()
}

pub fn try_login_op() -> BoxedStrategy<Op> {
    (vec(any_mech(), 0..5), creds(), auth_steps()).prop_map(|(mechs, creds, steps)| Op::TryLogin { mechs, creds, steps }).boxed()
}

pub fn hello() -> BoxedStrategy<Hello> {
    prop_oneof![
        1 => Just(Hello::Default),
        3 => "[a-z0-9-]{1,20}(\\.[a-z0-9-]{1,10}){0,3}".prop_map(Hello::Domain),
        1 => "[A-Za-z0-9._-]{1,40}".prop_map(Hello::Domain),
        1 => select(vec!["localhost.localdomain", "MAIL.Example.ORG", "example.org.", "a_b.example.org", "_", "-", ".", "xn--bcher-kva.example", "b\u{fc}cher.example", "127.0.0.1", "[127.0.0.1]", "[IPv6:::1]", "::1", "user@example.org", "%h", "1"]).prop_map(|s| Hello::Domain(s.into())),
        1 => dict::text(|c| c.is_ascii_alphanumeric() || c == '-' || c == '.', "[a-z0-9.-]{0,5}").prop_map(Hello::Domain),
        1 => (dict::near(300), "[a-z0-9]").prop_map(|(n, s)| Hello::Domain(s.repeat(n as usize))),
        1 => prop_oneof![3 => any::<[u8; 4]>(), 1 => select(vec![[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [10, 0, 0, 1], [192, 168, 0, 1], [169, 254, 0, 1], [224, 0, 0, 1], [192, 0, 2, 1]])].prop_map(Hello::V4),
        1 => prop_oneof![any::<[u16; 8]>(), any::<u16>().prop_map(|x| [0, 0, 0, 0, 0, 0, 0, x]), any::<[u16; 2]>().prop_map(|x| [0, 0, 0, 0, 0, 0xffff, x[0], x[1]]), any::<u16>().prop_map(|x| [0x2001, 0xdb8, 0, 0, x, 0, 0, 1]), select(vec![[0; 8], [0, 0, 0, 0, 0, 0, 0, 1], [0xfe80, 0, 0, 0, 0, 0, 0, 1], [0xfc00, 0, 0, 0, 0, 0, 0, 1], [0xff02, 0, 0, 0, 0, 0, 0, 1], [0xffff; 8], [0x64, 0xff9b, 0, 0, 0, 0, 0x7f00, 1], [0x2002, 0x7f00, 1, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0xffff, 0, 0x7f00, 1]])].prop_map(Hello::V6),
    ]
    .boxed()
}

pub fn cfg() -> BoxedStrategy<Cfg> {
    (any::<bool>(), prop_oneof![2 => Just(true), 1 => Just(false)], proptest::option::of(hello()), prop_oneof![9 => Just(false), 1 => Just(true)])
        .prop_map(|(u, p, h, no_greeting)| {
            let mut opts = vec![Opt::Utf8(u), Opt::Pipelining(p)];
            if let Some(h) = h {
                opts.push(Opt::Hello(h));
            }
            if no_greeting {
                opts.push(Opt::WithoutGreeting);
            }
            Cfg { opts }
        })
        .boxed()
}

/// Any sequence of builder calls.
pub fn cfg_any() -> BoxedStrategy<Cfg> {
    vec(
        prop_oneof![
            3 => any::<bool>().prop_map(Opt::Utf8),
            3 => any::<bool>().prop_map(Opt::Pipelining),
            3 => hello().prop_map(Opt::Hello),
            1 => Just(Opt::WithoutGreeting),
        ],
        0..7,
    )
    .prop_map(|opts| Cfg { opts })
    .boxed()
}

pub fn caps() -> BoxedStrategy<Caps> {
    (
        prop_oneof![2 => Just(true), 1 => Just(false)],
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        proptest::sample::subsequence(M::ALL.to_vec(), 0..=3),
        prop_oneof![12 => "[a-z0-9.]{1,20}", 1 => wide_text(), 1 => "[!-~\u{a1}-\u{17f}]{1,80}"],
        proptest::option::of(prop_oneof![8 => "[a-zA-Z ]{0,20}", 1 => text()]),
        prop_oneof![20 => Just(0usize), 1 => 10usize..200],
        proptest::sample::subsequence(vec!["SIZE 35882577", "ENHANCEDSTATUSCODES", "CHUNKING", "DSN", "HELP", "VRFY", "AUTH CRAM-MD5", "XCLIENT NAME", "SIZE"], 0..=4),
        any::<u32>(),
        text(),
    )
        .prop_map(|(pipelining, eightbit, utf8, starttls, auth, name, greet, more, extra, rot, note)| {
            let mut l: Vec<String> = extra.iter().map(|s| s.to_string()).collect();
            if rot % 16 == 0 {
                l.push(format!("X-NOTE {}", note));
            }
            l.extend((0..more).map(|i| format!("X-EXTENSION-{i}")));
            if pipelining {
                l.push("PIPELINING".into());
            }
            if eightbit {
                l.push("8BITMIME".into());
            }
            if utf8 {
                l.push("SMTPUTF8".into());
            }
            if starttls {
                l.push("STARTTLS".into());
            }
            if !auth.is_empty() {
                l.push(format!("AUTH {}", auth.iter().map(|m| m.name()).collect::<Vec<_>>().join(" ")));
            }
            // A deterministic permutation.
            let mut k = rot;
            let mut out = vec![];
            while !l.is_empty() {
                let i = k as usize % l.len();
                k = k.rotate_left(7).wrapping_mul(2654435761);
                out.push(l.remove(i));
            }
            let mut first = name;
            if let Some(g) = greet {
                first.push(' ');
                first.push_str(&g);
            }
            out.insert(0, first);
            Caps { pipelining, eightbit, utf8, starttls, auth, lines: out }
        })
        .boxed()
}

pub fn session(ops: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Session> {
    (cfg(), prop_oneof![2 => Just(Reply::new(220, "mail.example.org ESMTP")), 1 => reply_code(Just(220).boxed())], caps(), ops, net())
        .prop_map(|(cfg, greeting, caps, ops, net)| Session { cfg, greeting, ehlo_code: 250, caps, ops, net, fault: None })
        .boxed()
}

pub fn starttls_op() -> BoxedStrategy<Op> {
    prop_oneof![3 => reply_code(Just(220).boxed()), 1 => reply_code(code_2xx()), 2 => neg()].prop_map(Op::StartTls).boxed()
}

/// Few lines, short.
fn trim(r: &mut Reply) {
    r.lines.truncate(3);
    r.lines.iter_mut().for_each(|l| {
        while l.len() > 60 {
            l.pop();
        }
    });
}

fn trim_op(o: &mut Op) {
    match o {
        Op::Send(s) => {
            s.to.truncate(4);
            s.to.iter_mut().for_each(|x| trim(&mut x.1));
            trim(&mut s.mail);
            trim(&mut s.data);
            trim(&mut s.end);
        }
        Op::Auth { steps, .. } | Op::TryLogin { steps, .. } => steps.iter_mut().for_each(trim),
        Op::Quit(r) | Op::StartTls(r) => trim(r),
    }
}

/// Few operations, done again and again on one connection, in a generated order, and then emails.
pub fn long_history(pool: BoxedStrategy<Op>, g: SendGen, max: u32) -> BoxedStrategy<Vec<Op>> {
    let good = SendGen { rejected: 0, failing_source: 0, closing: false, many: false, small: true, ..g };
    let n = prop_oneof![2 => log_size(20, max), 1 => dict::near(max)];
    (vec(pool, 1..4), n, vec(0usize..8, 1..40), vec(send_op(good).prop_map(Op::Send), 1..4))
        .prop_map(|(mut pool, n, order, mut end)| {
            pool.iter_mut().for_each(trim_op);
            end.iter_mut().for_each(trim_op);
            let mut v: Vec<Op> = (0..n as usize).map(|i| pool[order[(i + i / order.len()) % order.len()] % pool.len()].clone()).collect();
            v.append(&mut end);
            v
        })
        .boxed()
}

/// As `session`, with a transport and an opening that cost little.
pub fn long_session(ops: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Session> {
    (session(ops), large_chunks(), large_chunks(), any::<bool>())
        .prop_map(|(mut s, w, r, plain)| {
            s.caps.lines.retain(|l| !l.starts_with("X-EXTENSION"));
            s.net = if plain { Net::plain() } else { Net { wchunks: w, rchunks: r, ..s.net } };
            s
        })
        .boxed()
}

/// Histories: emails, logins and at most one final quit. At most one login may succeed (a server refuses a second).
pub fn history(g: SendGen, max: usize, auth: bool) -> BoxedStrategy<Vec<Op>> {
    let op = if auth {
        prop_oneof![6 => send_op(g).prop_map(Op::Send), 1 => auth_op(), 1 => try_login_op()].boxed()
    } else {
        send_op(g).prop_map(Op::Send).boxed()
    };
    let quit = prop_oneof![
        3 => Just(None),
        2 => Just(Some(Op::Quit(Reply { close: true, ..Reply::new(221, "bye") }))),
        1 => reply_code(code_2xx()).prop_map(|r| Some(Op::Quit(Reply { close: true, ..r }))),
        2 => prop_oneof![neg(), neg_close()].prop_map(|r| Some(Op::Quit(r))),
        1 => starttls_op().prop_map(Some),
    ];
    let ops = prop_oneof![40 => vec(op.clone(), 1..=max), 1 => vec(op.clone(), max..max * 4 + 2), 1 => dict::near(40).prop_flat_map(move |n| vec(op.clone(), n as usize))];
    (ops, quit, vec((0u8..12, any::<u16>()), 0..4))
        .prop_map(|(mut v, q, rel)| {
            for (how, k) in rel {
                relate_ops(&mut v, how, k as usize);
            }
            if let Some(q) = q {
                v.push(q);
            }
            v
        })
        .boxed()
}
