//! P06 reply decoding, P07 hostile servers: byte streams that do not depend on what the client sends.
use super::content::*;
use crate::dict;
use crate::drive::*;
use crate::gen::*;
use crate::link::*;
use crate::oracle::*;
use crate::refs::ref_reply;
use crate::run::{Ctx, Info};
use crate::server::Server;
use crate::types::*;
use async_smtp::extension::ServerInfo;
use async_smtp::response::Response;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum RawOp {
    Send(u8),
    Plain,
    Login,
    TryLogin,
    Quit,
    StartTls,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RawCase {
    pub pieces: Vec<Tok>,
    pub greeting: bool,
    pub pipelining: bool,
    pub ops: Vec<RawOp>,
    pub net: Net,
}

/// The trace and the number of bytes the client had consumed after opening and after each operation.
pub fn run_raw(c: &RawCase) -> (Trace, Vec<u64>) {
    let mut opts = vec![Opt::Pipelining(c.pipelining)];
    if !c.greeting {
        opts.push(Opt::WithoutGreeting);
    }
    let link = Link::new(&c.net, Server::raw(toks_bytes(&c.pieces)), None);
    let mut ends = vec![];
    let mut ops = vec![];
    let mut t = match open(&link, &Cfg { opts }) {
        Ok(t) => t,
        Err(r) => {
            ends.push(link.borrow().consumed);
            return (finish(&link, r, ops, None), ends);
        }
    };
    ends.push(link.borrow().consumed);
    let creds = Creds { user: "user@x".into(), secret: "s3cret".into() };
    for o in &c.ops {
        let op = match o {
            RawOp::Send(n) => {
                let mut s = simple_send(vec![Tok::Lit(b"Subject: x\r\n\r\nhello\r\n".to_vec())]);
                s.to = (0..(*n).max(1)).map(|i| (format!("r{i}@x"), Reply::new(250, "ok"))).collect();
                Some(Op::Send(s))
            }
            RawOp::Plain => Some(Op::Auth { mech: M::Plain, creds: creds.clone(), steps: vec![] }),
            RawOp::Login => Some(Op::Auth { mech: M::Login, creds: creds.clone(), steps: vec![] }),
            RawOp::TryLogin => Some(Op::TryLogin { mechs: M::ALL.to_vec(), creds: creds.clone(), steps: vec![] }),
            RawOp::Quit => Some(Op::Quit(Reply::new(221, "bye"))),
            RawOp::StartTls => None,
        };
        let r = match op {
            Some(op) => run_op(&link, &mut t, &op),
            None => {
                let r = match exec(&link, t.starttls()) {
                    Run::Done(Ok(_)) => Res::Ok,
                    Run::Done(Err(e)) => err_res(&e),
                    Run::Stalled(s) => Res::Stalled(s),
                    Run::Panicked(s) => Res::Panicked(s),
                };
                ops.push(r);
                ends.push(link.borrow().consumed);
                return (finish(&link, Res::Ok, ops, None), ends);
            }
        };
        let stop = matches!(r, Res::Stalled(_) | Res::Panicked(_));
        ops.push(r);
        ends.push(link.borrow().consumed);
        if stop {
            break;
        }
    }
    let _ = guard(move || drop(t));
    (finish(&link, Res::Ok, ops, None), ends)
}

/// All of `b` as complete replies.
fn all_replies(mut b: &[u8]) -> Option<Vec<(u16, Vec<String>)>> {
    let mut v = vec![];
    while !b.is_empty() {
        let (c, l, n) = ref_reply(b)?;
        v.push((c, l));
        b = &b[n..];
    }
    Some(v)
}

/// P07 for one stream.
fn check_raw(c: &RawCase) -> Result<Info, String> {
    let (t, ends) = run_raw(c);
    let bytes = toks_bytes(&c.pieces);
    let mut from = 0usize;
    let mut good = 0;
    let mut deep = false;
    for (k, r) in [&t.open].into_iter().chain(t.ops.iter()).enumerate() {
        let what = if k == 0 { "opening".to_string() } else { format!("op {} ({:?})", k - 1, c.ops[k - 1]) };
        match r {
            Res::Stalled(m) => return Err(format!("{what} never completed: {m}")),
            Res::Panicked(m) => return Err(format!("{what} panicked: {m}")),
            _ => {}
        }
        let to = ends[k] as usize;
        if to > bytes.len() {
            return Err(format!("{what} consumed more than was sent"));
        }
        if r.is_ok() {
            let used = &bytes[from..to];
            let bad = |m: String| Err(format!("{what} ended with {r:?} after reading {:?}: {m}", show_bytes(used)));
            let Some(rs) = all_replies(used) else { return bad("these are not complete well formed replies".into()) };
            if let Some(x) = rs.iter().find(|x| x.0 >= 400) {
                return bad(format!("the server rejected with {}", x.0));
            }
            let exact = match k {
                0 => Some(1 + c.greeting as usize),
                _ => match &c.ops[k - 1] {
                    RawOp::Send(n) => Some((*n).max(1) as usize + 3),
                    RawOp::Quit | RawOp::StartTls | RawOp::Plain => Some(1),
                    RawOp::Login | RawOp::TryLogin => None,
                },
            };
            if exact.map_or(false, |n| n != rs.len()) {
                return bad(format!("{} replies were read, not {exact:?}", rs.len()));
            }
            if let Res::OkReply(code, lines) = r {
                match rs.last() {
                    Some(l) if l.0 == *code && l.1 == *lines => {}
                    l => return bad(format!("the last reply was {l:?}")),
                }
            }
            good += 1;
        } else if let Res::Transient(code, lines) | Res::Permanent(code, lines) = r {
            // A rejection is one of the replies in what was read.
            let mut b = &bytes[from..];
            let mut seen = false;
            while let Some((c2, l2, n)) = ref_reply(b) {
                if c2 == *code && l2 == *lines {
                    seen = true;
                    break;
                }
                b = &b[n..];
            }
            if !seen {
                return Err(format!("{what} ended with {r:?}, which the server never sent in {:?}", show_bytes(&bytes[from..])));
            }
            deep |= k > 0;
        } else {
            deep |= k > 0;
        }
        from = to;
    }
    Ok(Info::new(t.open.is_err() || deep)
        .label(good >= 2, "some operation succeeded")
        .label(t.open.is_err(), "opening failed")
        .label(deep, "a later operation failed"))
}

fn frag() -> BoxedStrategy<Vec<u8>> {
    let code = prop_oneof![4 => Just(250u16), 2 => select(vec![220u16, 354, 334, 221, 235, 550, 451, 421]), 1 => (2u16..6, 0u16..6, 0u16..10).prop_map(|(x, y, z)| 100 * x + 10 * y + z)];
    let reply = reply_code(code.boxed()).prop_map(|r| r.render()).boxed();
    prop_oneof![
        12 => reply.clone(),
        3 => select(vec![
            "250-mx\r\n250-PIPELINING\r\n250-8BITMIME\r\n250-STARTTLS\r\n250 AUTH PLAIN LOGIN\r\n",
            "250 mx\r\n", "220 hi\r\n", "250 ok\r\n", "354 go\r\n", "334 VXNlcm5hbWU6\r\n", "334 UGFzc3dvcmQ6\r\n", "235 ok\r\n", "334 \r\n", "334 !!!!\r\n", "334 /////w==\r\n",
            "250\r\n", "250 \r\n", "250-\r\n250 \r\n", "334\r\n",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        4 => select(vec![
            "250-a\r\n251 b\r\n", "250-a\r\n550 b\r\n", "550-a\r\n250 b\r\n", "250-a\r\n", "250", "25", "2", "2500 x\r\n", "250_x\r\n", "250\tx\r\n", "\r\n", "\n", "\r", " 250 ok\r\n",
            "150 x\r\n", "650 x\r\n", "260 x\r\n", "290 x\r\n", "000 x\r\n", "25a x\r\n", "250 ok\n", "250 ok\r", "250-a\n250 b\r\n", "250-a\r\n\r\n250 b\r\n", "HTTP/1.1 200 OK\r\n", "-250 x\r\n", "+OK\r\n", "* OK\r\n",
            "\u{662}\u{665}\u{660} x\r\n", "250\u{a0}x\r\n", "250-a\r\n250", "250-a\r\n25", "250-a\r\n250-", "200 x\r\n", "999 x\r\n",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        // one mutation of a good reply
        6 => (reply, any::<u16>(), any::<u8>(), 0u8..4).prop_map(|(mut b, at, v, how)| {
            let i = at as usize % b.len();
            match how {
                0 => b[i] = v,
                1 => b.insert(i, v),
                2 => { b.remove(i); }
                _ => b.truncate(i),
            }
            b
        }),
        1 => vec(any::<u8>(), 0..40),
        2 => (select(vec!["250-", "250 ", "550 ", "334 ", "220 ", "354 ", "250", ""]), dict::bytes(), select(vec!["\r\n", "\n", "", "\r\n250 ok\r\n"])).prop_map(|(a, b, c)| [a.as_bytes(), &b, c.as_bytes()].concat()),
        1 => (any::<u8>(), 1usize..3000).prop_map(|(b, n)| vec![b; n]),
        1 => vec(select(b"25034 -\r\n\xff".to_vec()), 0..30),
    ]
    .boxed()
}

fn raw_ops() -> BoxedStrategy<Vec<RawOp>> {
    vec(
        prop_oneof![
            4 => (1u8..5).prop_map(RawOp::Send),
            1 => Just(RawOp::Plain),
            2 => Just(RawOp::Login),
            1 => Just(RawOp::TryLogin),
            1 => Just(RawOp::Quit),
            1 => Just(RawOp::StartTls),
        ],
        0..4,
    )
    .boxed()
}

pub fn raw_case() -> BoxedStrategy<RawCase> {
    let intro = prop_oneof![
        1 => Just(vec![]),
        4 => Just(vec![b"220 hi\r\n".to_vec(), b"250-mx\r\n250-PIPELINING\r\n250-8BITMIME\r\n250-STARTTLS\r\n250 AUTH PLAIN LOGIN\r\n".to_vec()]),
    ];
    (intro, vec(frag(), 0..9), prop_oneof![6 => Just(true), 1 => Just(false)], any::<bool>(), raw_ops(), net(), proptest::option::weighted(0.3, any::<u16>()))
        .prop_map(|(mut a, b, greeting, pipelining, ops, net, cut)| {
            a.extend(b);
            if let Some(c) = cut {
                let total: usize = a.iter().map(|x| x.len()).sum();
                let mut left = c as usize % (total + 1);
                for x in a.iter_mut() {
                    let n = x.len().min(left);
                    x.truncate(n);
                    left -= n;
                }
            }
            let pieces = a.into_iter().filter(|x| !x.is_empty()).map(Tok::Lit).collect();
            RawCase { pieces, greeting, pipelining, ops, net }
        })
        .boxed()
}

/// `str::parse` against the reference. `exact`: the text holds a well formed reply.
fn check_parse(s: &str) -> Result<bool, String> {
    let got = guard(|| s.parse::<Response>())?;
    let exp = ref_reply(s.as_bytes());
    match (&got, &exp) {
        (Ok(r), Some((c, l, _))) => {
            let (c2, l2) = resp(r);
            if (*c, l) != (c2, &l2) {
                return Err(format!("{s:?} was read as {c2} {l2:?}, it is {c} {l:?}"));
            }
            guard(|| ServerInfo::from_response(r).is_ok())?;
            Ok(true)
        }
        (Ok(r), None) => Err(format!("{s:?} is no complete reply, but was read as {r:?}")),
        (Err(e), Some((c, l, _))) => {
            // Stray control characters are not well formed text.
            if l.iter().all(|x| x.chars().all(|c| c == '\t' || !c.is_ascii_control())) {
                return Err(format!("{s:?} is the reply {c} {l:?}, but was refused: {e}"));
            }
            Ok(false)
        }
        (Err(_), None) => Ok(false),
    }
}

pub fn p07(ctx: &mut Ctx) {
    ctx.rule = "a case is a byte stream (valid, mutated and random pieces, cut anywhere) that a server sends before closing, and operations that run against it; or one string given to the reply parser; non-trivial: some operation fails on the stream, or the string is not a valid reply".into();
    ctx.random("streams", 80_000, 3_000_000, raw_case, check_raw);
    let strat = || {
        prop_oneof![
            4 => vec(frag(), 1..4).prop_map(|v| String::from_utf8_lossy(&v.concat()).into_owned()),
            1 => "[2-5][0-5][0-9][ -]?[ -~\r\n]{0,12}(\r\n)?",
            1 => any::<String>(),
        ]
        .boxed()
    };
    ctx.random("strings", 80_000, 3_000_000, strat, |s: &String| {
        let ok = check_parse(s)?;
        Ok(Info::new(!ok).label(ok, "a valid reply"))
    });
    // All short strings over the characters that matter.
    const AL: &[u8] = b"2503 -\r\nx";
    let maxlen: u32 = if ctx.thorough { 7 } else { 6 };
    let k = AL.len();
    let total: usize = (0..=maxlen).map(|n| k.pow(n)).sum();
    ctx.enumerate(
        "all-short-strings",
        total,
        |mut i| {
            let mut len = 0u32;
            while i >= k.pow(len) {
                i -= k.pow(len);
                len += 1;
            }
            let mut v = vec![];
            for _ in 0..len {
                v.push(AL[i % k]);
                i /= k;
            }
            v.reverse();
            String::from_utf8(v).unwrap()
        },
        |s: &String| {
            let ok = check_parse(s)?;
            Ok(Info::new(!ok && s.starts_with("2")))
        },
    );
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ParseCase {
    r: Reply,
    follow: Vec<u8>,
}

fn check_reply(c: &ParseCase) -> Result<Info, String> {
    let b = c.r.render();
    let s = String::from_utf8(b.clone()).unwrap();
    let mut n = 2;
    let follow = String::from_utf8_lossy(&c.follow).into_owned();
    for t in [s.clone(), format!("{s}{follow}")] {
        match guard(|| t.parse::<Response>())? {
            Ok(r) => {
                let (code, lines) = resp(&r);
                if code != c.r.code || lines != c.r.lines {
                    return Err(format!("{} was read as {code} with {} lines {}", show_bytes(t.as_bytes()), lines.len(), show_bytes(format!("{lines:?}").as_bytes())));
                }
                let fw = c.r.lines[0].split_whitespace().next();
                if r.first_word() != fw || r.first_line() != c.r.lines.first().map(|x| x.as_str()) {
                    return Err(format!("{t:?}: first word {:?}, first line {:?}", r.first_word(), r.first_line()));
                }
            }
            Err(e) => return Err(format!("{t:?} was refused: {e}")),
        }
    }
    let step = (s.len() / if s.len() > 100_000 { 16 } else { 300 }).max(1);
    for i in (0..s.len()).step_by(step).chain([s.len() - 1, s.len().saturating_sub(2)]) {
        if !s.is_char_boundary(i) {
            continue;
        }
        n += 1;
        if let Ok(r) = guard(|| s[..i].parse::<Response>())? {
            return Err(format!("the incomplete reply {} was read as {}", show_bytes(s[..i].as_bytes()), show_bytes(format!("{r:?}").as_bytes())));
        }
    }
    Ok(Info::new(c.r.lines.len() > 1 || c.r.lines[0].is_empty() || !c.r.lines[0].is_ascii())
        .label(c.r.lines.len() > 1, "several lines")
        .label(c.r.lines.iter().any(|l| l.is_empty()), "an empty line")
        .label(c.r.bare && c.r.lines.last().map_or(false, |l| l.is_empty()), "no space and no text")
        .execs(n))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Joined {
    greeting: Reply,
    ehlo: Vec<String>,
    pipelining: bool,
    /// Each operation with the replies it gets; the last reply of the last operation may reject.
    ops: Vec<(RawOp, Vec<Reply>)>,
    net: Net,
    tail: Vec<u8>,
}

fn joined() -> BoxedStrategy<Joined> {
    let op = || {
        prop_oneof![
            3 => (1u8..5).prop_flat_map(|n| (vec(ok(), n as usize + 1), go(), ok()).prop_map(move |(mut v, g, e)| {
                v.push(g);
                v.push(e);
                (RawOp::Send(n), v)
            })),
            2 => ok().prop_map(|r| (RawOp::Plain, vec![r])),
            1 => ok().prop_map(|r| (RawOp::Login, vec![challenge(b"Username:"), challenge(b"Password:"), r])),
            1 => ok().prop_map(|r| (RawOp::Quit, vec![r])),
        ]
    };
    let last = prop_oneof![
        1 => Just(None),
        1 => (op(), proptest::option::of(neg())).prop_map(|((o, mut v), r)| {
            if let Some(r) = r {
                *v.last_mut().unwrap() = r;
            }
            Some((o, v))
        }),
        1 => ok().prop_map(|r| Some((RawOp::StartTls, vec![r]))),
    ];
    (
        reply_code(Just(220).boxed()),
        vec(text(), 0..3),
        any::<bool>(),
        (vec(op(), 0..4), last),
        net(),
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 0..20), 1 => Just(b"250 more\r\n".to_vec())],
    )
        .prop_map(|(greeting, extra, pipelining, (mut ops, last), net, tail)| {
            ops.extend(last);
            let mut ehlo = vec!["mx".to_string(), "STARTTLS".into()];
            if pipelining {
                ehlo.push("PIPELINING".into());
            }
            ehlo.extend(extra.into_iter().map(|s| format!("X-{s}")));
            Joined { greeting, ehlo, pipelining, ops, net, tail }
        })
        .boxed()
}

fn check_joined(c: &Joined) -> Result<Info, String> {
    let ehlo = Reply { code: 250, lines: c.ehlo.clone(), bare: false, close: false };
    let mut pieces = vec![Tok::Lit(c.greeting.render()), Tok::Lit(ehlo.render())];
    let mut ends = vec![(c.greeting.render().len() + ehlo.render().len()) as u64];
    for (_, rs) in &c.ops {
        let mut n = 0;
        for r in rs {
            let b = r.render();
            n += b.len() as u64;
            pieces.push(Tok::Lit(b));
        }
        ends.push(ends.last().unwrap() + n);
    }
    pieces.push(Tok::Lit(c.tail.clone()));
    let rc = RawCase { pieces, greeting: true, pipelining: c.pipelining, ops: c.ops.iter().map(|o| o.0.clone()).collect(), net: c.net.clone() };
    let (t, got) = run_raw(&rc);
    if t.open != Res::Ok {
        return Err(format!("opening: {:?}", t.open));
    }
    if got[0] != ends[0] {
        return Err(format!("after opening {} bytes had been consumed, greeting and EHLO reply have {}", got[0], ends[0]));
    }
    for (k, (op, rs)) in c.ops.iter().enumerate() {
        let Some(r) = t.ops.get(k) else { return Err(format!("op {k} did not run: {:?}", t.ops)) };
        let last = rs.last().unwrap();
        let exp = if !last.is_2xx() {
            Exp::Rej(last.code, last.lines.clone())
        } else if matches!(op, RawOp::Quit | RawOp::StartTls) {
            Exp::Ok
        } else {
            Exp::OkReply(last.code, last.lines.clone())
        };
        if !matches(&exp, r) {
            return Err(format!("op {k} ({op:?}): expected {exp:?}, got {r:?}"));
        }
        if last.is_2xx() && got[k + 1] != ends[k + 1] {
            return Err(format!("op {k} ({op:?}): {} bytes had been consumed, its replies end at {}", got[k + 1], ends[k + 1]));
        }
    }
    let multi = c.ops.iter().flat_map(|o| &o.1).any(|r| r.lines.len() > 1 || r.lines[0].is_empty());
    Ok(Info::new(!c.ops.is_empty() && (multi || c.net.rchunks != [65535]))
        .label(c.net.rchunks == [1], "one byte per read")
        .label(multi, "a reply with several lines or without text")
        .label(!c.tail.is_empty(), "more bytes follow")
        .execs(1 + t.ops.len() as u64))
}

pub fn p06(ctx: &mut Ctx) {
    ctx.rule = "a case is a reply given to the parser with all its proper prefixes and with bytes following it, or a session whose replies arrive all at once or cut anywhere, where each operation must consume exactly its replies; all 240 codes are enumerated in 6 shapes; non-trivial: several lines, no text, non-ASCII text, or cut or joined replies".into();
    let shapes = |i: usize| -> Reply {
        let (k, shape) = (i / 6, i % 6);
        let code = (2 + k / 60) as u16 * 100 + (k / 10 % 6) as u16 * 10 + (k % 10) as u16;
        let l = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let (lines, bare) = match shape {
            0 => (l(&["Requested action okay"]), false),
            1 => (l(&[""]), false),
            2 => (l(&[""]), true),
            3 => (l(&["first", "second", "third"]), false),
            4 => (l(&["", "250-x", ""]), true),
            _ => (l(&["-", " 550 x", "  "]), false),
        };
        Reply { code, lines, bare, close: false }
    };
    ctx.enumerate("all-codes", 1440, move |i| ParseCase { r: shapes(i), follow: b"250 next\r\n".to_vec() }, check_reply);
    ctx.enumerate(
        "all-codes-on-the-wire",
        2880,
        move |i| {
            let mut m = simple_send(vec![Tok::Lit(b"x\r\n".to_vec())]);
            m.end = shapes(i / 2);
            let mut s = simple_session(vec![Op::Send(m)]);
            if i % 2 == 1 {
                s.net.rchunks = vec![1];
            }
            s
        },
        |s: &Session| {
            let Op::Send(m) = &s.ops[0] else { unreachable!() };
            let t = run_session(s);
            let exp = if m.end.code / 100 == 3 {
                Exp::Any // Not a verdict on a message.
            } else {
                expect_send(m).0
            };
            if t.ops.len() != 1 || !matches(&exp, &t.ops[0]) {
                return Err(format!("expected {exp:?}, got {:?} {:?}", t.open, t.ops));
            }
            Ok(Info::new(true))
        },
    );
    let strat = || {
        (
            reply_code((2u16..6, 0u16..6, 0u16..10).prop_map(|(x, y, z)| 100 * x + 10 * y + z).boxed()),
            prop_oneof![1 => Just(b"250 next\r\n".to_vec()), 1 => Just(b"250-".to_vec()), 1 => Just(b"garbage".to_vec()), 1 => "[ -~]{0,10}".prop_map(|s| s.into_bytes())],
        )
            .prop_map(|(r, follow)| ParseCase { r, follow })
            .boxed()
    };
    ctx.random("replies", 30_000, 900_000, strat, check_reply);
    // Very many, or very long lines.
    let strat = || {
        (
            (2u16..6, 0u16..6, 0u16..10).prop_map(|(x, y, z)| 100 * x + 10 * y + z),
            prop_oneof![
                2 => log_size(300, 70_000).prop_map(|n| (n as usize, 1)),
                2 => log_size(1000, 2_000_000).prop_map(|n| (1, n as usize)),
                1 => dict::near(100_000).prop_map(|n| (n as usize, 1)),
                1 => select([&dict::dict().big[..], &[65536, 1 << 20]].concat()).prop_map(|n| (1, n as usize)),
            ],
            "[ -~\u{e9}]{0,3}",
            any::<bool>(),
            "[ -~]{0,9}",
        )
            .prop_map(|(code, (lines, len), t, bare, last)| {
                let mut lines = vec![t.repeat(len); lines];
                lines.push(last);
                ParseCase { r: Reply { code, lines, bare, close: false }, follow: b"250 next\r\n".to_vec() }
            })
            .boxed()
    };
    ctx.random("large", 160, 4_000, strat, check_reply);
    let strat = || {
        (prop_oneof![2 => (log_size(300, 2200), Just(2u32)), 1 => (dict::near(2100), Just(4)), 2 => (1u32..4, log_size(20_000, 1_000_000))], "[ -~\u{e9}]{1,2}", any::<bool>(), large_chunks())
            .prop_map(|((lines, len), t, neg, rchunks)| {
                let mut m = simple_send(vec![Tok::Lit(b"x\r\n".to_vec())]);
                m.end = Reply { code: if neg { 554 } else { 250 }, lines: vec![t.repeat(len as usize); lines as usize], bare: false, close: false };
                let mut s = simple_session(vec![Op::Send(m), Op::Send(simple_send(vec![Tok::Lit(b"y\r\n".to_vec())]))]);
                s.net.rchunks = rchunks;
                s
            })
            .boxed()
    };
    ctx.random("large-on-the-wire", 24, 600, strat, |s: &Session| {
        check_session(s, &run_session(s), Want { results: true, ..Want::default() })?;
        Ok(Info::new(true))
    });
    ctx.random("joined", 40_000, 1_500_000, joined, check_joined);
    let g = SendGen { max_rcpt: 4, rejected: 25, closing: false, failing_source: 0, small: true, many: true };
    let strat = move || session(history(g, 3, true));
    let want = Want { results: true, ..Want::default() };
    ctx.random("cut", 30_000, 1_000_000, strat, move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        let mut whole = s.clone();
        whole.net = Net::plain();
        let t2 = run_session(&whole);
        if t.ops != t2.ops || t.wire != t2.wire {
            return Err(format!("cut replies: {:?}, whole replies: {:?}", t.ops, t2.ops));
        }
        Ok(Info::new(s.net.rchunks != [65535]).execs(2))
    });
}
