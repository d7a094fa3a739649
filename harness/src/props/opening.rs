//! P10 parameters, P13 STARTTLS, P17 opening.
use super::content::*;
use crate::drive::*;
use crate::gen::*;
use crate::link::*;
use crate::oracle::*;
use crate::run::{Ctx, Info};
use crate::server::*;
use crate::types::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// First session, STARTTLS, second session on the returned stream.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TlsCase {
    s: Session,
    reply: Reply,
    /// What follows the reply on the wire (the start of TLS).
    tail: Vec<u8>,
    cfg2: Cfg,
    caps2: Caps,
    ops2: Vec<Op>,
}

fn tls_case(reject: u32) -> BoxedStrategy<TlsCase> {
    let g = SendGen { max_rcpt: 3, rejected: 0, closing: false, failing_source: 0, small: true, many: true };
    let g0 = SendGen { rejected: 40, failing_source: 15, ..g };
    let before = prop_oneof![
        7 => Just(vec![]),
        2 => send_op(g).prop_map(|m| vec![Op::Send(m)]),
        2 => vec(prop_oneof![3 => send_op(g0).prop_map(Op::Send), 1 => auth_op(), 1 => try_login_op()], 1..4),
    ]
    .boxed();
    let after = vec(
        prop_oneof![3 => send_op(g).prop_map(Op::Send), 2 => (vec(any_mech(), 0..4), creds(), auth_steps()).prop_map(|(mechs, creds, steps)| Op::TryLogin { mechs, creds, steps })],
        1..3,
    );
    (
        session(before),
        prop_oneof![100 - reject => reply_code(prop_oneof![3 => Just(220u16).boxed(), 1 => code_2xx()].boxed()), reject.max(1) => neg(), 1 => neg_close()],
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 0..60), 1 => Just(b"250 injected\r\n250 injected\r\n".to_vec())],
        cfg(),
        caps(),
        after,
        0u8..4,
    )
        .prop_map(|(mut s, reply, tail, mut cfg2, caps2, ops2, adv)| {
            let want = adv != 0;
            if want != s.caps.starttls {
                s.caps.starttls = want;
                if want {
                    s.caps.lines.push("STARTTLS".into());
                } else {
                    s.caps.lines.retain(|l| l != "STARTTLS");
                }
            }
            cfg2.opts.push(Opt::WithoutGreeting);
            TlsCase { s, reply, tail, cfg2, caps2, ops2 }
        })
        .boxed()
}

struct TlsRun {
    upgrade: Res,
    second: Option<(Session, Trace)>,
}

/// Runs the case, deciding P13 on the way.
fn run_tls(c: &TlsCase) -> Result<TlsRun, String> {
    let s = &c.s;
    let server = Server::new(if s.cfg.greeting() { Some(&s.greeting) } else { None }, ehlo_reply(s));
    let link = Link::new(&s.net, server, None);
    let mut t = open(&link, &s.cfg).map_err(|r| format!("opening: {r:?}"))?;
    for (i, op) in s.ops.iter().enumerate() {
        link.borrow_mut().begin(i as i32, script_of(op));
        let r = run_op(&link, &mut t, op);
        let exp = expect_op(op, &s.caps);
        if !matches(&exp, &r) {
            return Err(format!("op {i} before the upgrade: expected {exp:?}, got {r:?}"));
        }
    }
    let (w0, ev0) = (link.borrow().wire.len(), link.borrow().server.log.len());
    link.borrow_mut().begin(100, Script::StartTls { reply: c.reply.clone(), tail: c.tail.clone() });
    let r = match exec(&link, t.starttls()) {
        Run::Done(Ok(st)) => Ok(st),
        Run::Done(Err(e)) => Err(err_res(&e)),
        Run::Stalled(m) => return Err(format!("STARTTLS never completed: {m}")),
        Run::Panicked(m) => return Err(format!("STARTTLS panicked: {m}")),
    };
    let wrote = link.borrow().wire[w0..].to_vec();
    if !s.caps.starttls {
        if !wrote.is_empty() {
            return Err(format!("STARTTLS was not advertised, but the client wrote {:?}", show_bytes(&wrote)));
        }
        return match r {
            Ok(_) => Err("STARTTLS was not advertised, but the stream was handed out".into()),
            Err(e) => Ok(TlsRun { upgrade: e, second: None }),
        };
    }
    if wrote != b"STARTTLS\r\n" {
        return Err(format!("expected exactly the STARTTLS command, the client wrote {:?}", show_bytes(&wrote)));
    }
    let stream = match r {
        Ok(st) if c.reply.is_2xx() => st,
        Ok(_) => return Err(format!("the server answered {:?}, but the stream was handed out", c.reply)),
        Err(e) => {
            let exp = if c.reply.is_2xx() { Exp::Ok } else { Exp::Rej(c.reply.code, c.reply.lines.clone()) };
            if !matches(&exp, &e) {
                return Err(format!("the server answered {:?}, the result is {e:?}", c.reply));
            }
            return Ok(TlsRun { upgrade: e, second: None });
        }
    };
    {
        let mut l = link.borrow_mut();
        let end = l.server.log[ev0].reply_end();
        if l.consumed != end {
            return Err(format!("the reply to STARTTLS ends at byte {end}, but {} bytes had been consumed", l.consumed));
        }
        let unread = l.unread();
        if unread != c.tail {
            return Err(format!("left unread {:?}, expected {:?}", show_bytes(&unread), show_bytes(&c.tail)));
        }
        if !l.server.tls_bytes.is_empty() {
            return Err(format!("the client wrote {:?} after STARTTLS", show_bytes(&l.server.tls_bytes)));
        }
    }
    if !std::rc::Rc::ptr_eq(&stream.link, &link) {
        return Err("another stream was handed out".into());
    }
    if !c.tail.is_empty() {
        return Ok(TlsRun { upgrade: Res::Ok, second: None });
    }
    // The upgraded connection: same wire, new session.
    drop(stream);
    let s2 = Session {
        cfg: c.cfg2.clone(),
        greeting: Reply::new(220, "unused"),
        ehlo_code: 250,
        caps: c.caps2.clone(),
        ops: c.ops2.clone(),
        net: s.net.clone(),
        fault: None,
    };
    let t2 = run_session(&s2);
    Ok(TlsRun { upgrade: Res::Ok, second: Some((s2, t2)) })
}

pub fn p13(ctx: &mut Ctx) {
    ctx.rule = "a case opens a session, possibly sends an email, requests STARTTLS with a generated verdict and following bytes, and after an upgrade runs a second session without greeting under other capabilities; non-trivial: STARTTLS was advertised and the reply is not a plain one-line 220, or bytes follow it, or the second session runs".into();
    let want = Want { results: true, deliveries: true, commands: true, strict_commands: true, params: true, order: true, auth_lines: true, clean_end: false };
    let want2 = Want { strict_commands: false, ..want };
    ctx.random("upgrades", 70_000, 1_200_000, || tls_case(25), move |c: &TlsCase| {
        let r = run_tls(c)?;
        let mut second = false;
        if let Some((s2, t2)) = &r.second {
            second = true;
            check_session(s2, t2, want2).map_err(|e| format!("after the upgrade: {e}"))?;
            check_opening_events(s2, t2).map_err(|e| format!("after the upgrade: {e}"))?;
        }
        Ok(Info::new(c.s.caps.starttls && (second || !c.tail.is_empty() || c.reply.code != 220 || c.reply.lines.len() > 1))
            .label(!c.s.caps.starttls, "not advertised")
            .label(c.s.caps.starttls && !c.reply.is_2xx(), "rejected")
            .label(c.s.caps.starttls && c.reply.is_2xx() && !c.tail.is_empty(), "bytes follow the reply")
            .label(second, "second session")
            .label(r.upgrade.is_err(), "failed"))
    });
}

pub fn p10(ctx: &mut Ctx) {
    ctx.rule = "a case is a session of 1-3 emails under some capabilities and client settings, or two sessions separated by STARTTLS; all 64 combinations of capabilities and settings are enumerated, the rest generated; non-trivial: 8BITMIME or SMTPUTF8 is advertised or SMTPUTF8 enabled".into();
    let want = Want { params: true, ..Want::default() };
    let check = move |s: &Session| -> Result<Info, String> {
        let t = run_session(s);
        check_session(s, &t, want)?;
        if !t.log.iter().any(|e| matches!(e, Ev::Cmd { line, .. } if line.starts_with(b"MAIL"))) {
            return Err("no sender command was seen".into());
        }
        Ok(Info::new(s.caps.eightbit || s.caps.utf8 || s.cfg.utf8())
            .label(s.caps.utf8 && s.cfg.utf8(), "SMTPUTF8 used")
            .label(s.caps.utf8 != s.cfg.utf8(), "SMTPUTF8 on one side only")
            .label(s.caps.eightbit, "8BITMIME used"))
    };
    ctx.enumerate(
        "combinations",
        64,
        |i| {
            let mut s = simple_session(vec![Op::Send(simple_send(vec![Tok::Lit(b"x\xc3\xa9".to_vec())]))]);
            let bit = |k: usize| i >> k & 1 == 1;
            s.caps.lines = vec!["mx".into()];
            s.caps.eightbit = bit(0);
            s.caps.utf8 = bit(1);
            s.caps.pipelining = bit(2);
            for (on, l) in [(bit(0), "8BITMIME"), (bit(1), "SMTPUTF8"), (bit(2), "PIPELINING")] {
                if on {
                    s.caps.lines.push(l.into());
                }
            }
            s.cfg.opts = vec![Opt::Pipelining(bit(4))];
            if bit(3) {
                s.cfg.opts.push(Opt::Utf8(true));
            }
            if bit(5) {
                s.ops.push(s.ops[0].clone());
            }
            s
        },
        check,
    );
    let g = SendGen { max_rcpt: 3, rejected: 15, closing: false, failing_source: 0, small: true, many: true };
    let strat = move || {
        let ops = (send_op(g), history(SendGen { failing_source: 5, ..g }, 4, true), any::<u8>())
            .prop_map(|(m, mut v, k)| {
                // At least one email; quitting and STARTTLS come last.
                let n = v.iter().filter(|o| !matches!(o, Op::Quit(_) | Op::StartTls(_))).count();
                v.insert(k as usize % (n + 1), Op::Send(m));
                v
            })
            .boxed();
        session(ops)
    };
    ctx.random("sessions", 30_000, 900_000, strat, check);
    let g2 = SendGen { failing_source: 5, many: false, ..g };
    let strat = move || {
        let op = prop_oneof![8 => send_op(g2).prop_map(Op::Send), 1 => auth_op()].boxed();
        long_session(long_history(op, g2, 700))
    };
    ctx.random("long", 200, 6_000, strat, check);
    ctx.random("after-starttls", 10_000, 300_000, || tls_case(1), move |c: &TlsCase| {
        let Ok(r) = run_tls(c) else { return Ok(Info::new(false)) };
        let Some((s2, t2)) = &r.second else { return Ok(Info::new(false)) };
        check_session(s2, t2, want)?;
        Ok(Info::new(c.s.caps.eightbit != s2.caps.eightbit || c.s.caps.utf8 != s2.caps.utf8).label(true, "second session"))
    });
}

fn hello_matches(h: &Hello, arg: &str) -> bool {
    use std::net::{Ipv4Addr, Ipv6Addr};
    match h {
        Hello::Default => arg == "[127.0.0.1]",
        Hello::Domain(d) => arg == d,
        Hello::V4(a) => arg.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.parse::<Ipv4Addr>().ok()) == Some((*a).into()),
        Hello::V6(a) => arg.strip_prefix("[IPv6:").and_then(|x| x.strip_suffix(']')).and_then(|x| x.parse::<Ipv6Addr>().ok()) == Some((*a).into()),
    }
}

/// The order of reads and writes while opening, and the identity used.
fn check_opening_events(s: &Session, t: &Trace) -> Result<(), String> {
    let opening: Vec<&Ev> = t.log.iter().filter(|e| e.op() == -1 && !matches!(e, Ev::Greeting { .. })).collect();
    if s.cfg.greeting() && !s.greeting.is_2xx() {
        if !t.wire.is_empty() {
            return Err(format!("the greeting rejected the client, but it wrote {:?}", show_bytes(&t.wire)));
        }
        return Ok(());
    }
    match opening.as_slice() {
        [Ev::Cmd { line, start: 0, .. }] => {
            let line = String::from_utf8_lossy(line).into_owned();
            let ok = line.strip_prefix("EHLO ").map_or(false, |a| hello_matches(&s.cfg.hello(), a));
            if !ok {
                return Err(format!("identity {:?} was announced as {line:?}", s.cfg.hello()));
            }
        }
        o => return Err(format!("expected exactly one EHLO while opening, got {o:?}")),
    }
    let greeting_end = t.log.iter().find_map(|e| if let Ev::Greeting { reply_end } = e { Some(*reply_end) } else { None }).unwrap_or(0);
    let i = t.log.iter().position(|e| !matches!(e, Ev::Greeting { .. })).unwrap();
    if t.seen[i] != greeting_end {
        return Err(format!("{} bytes had been read when EHLO was written, the greeting has {greeting_end}", t.seen[i]));
    }
    Ok(())
}

/// Whether some command was written before the reply to the one before it had been read.
fn overlaps(t: &Trace) -> bool {
    (1..t.log.len()).any(|w| t.seen[w] < t.log[w - 1].reply_end())
}

/// Only the values in effect matter, and how an email is sent depends on the options for that only.
fn check_options(s: &Session, t: &Trace) -> Result<(), String> {
    let c = &s.cfg;
    let mut each = vec![Opt::Utf8(c.utf8()), Opt::Pipelining(c.pipelining())];
    if c.opts.iter().any(|o| matches!(o, Opt::Hello(_))) {
        each.push(Opt::Hello(c.hello()));
    }
    if !c.greeting() {
        each.insert(0, Opt::WithoutGreeting);
    }
    let mut once = s.clone();
    once.cfg.opts = each;
    let t2 = run_session(&once);
    if t.open != t2.open || t.ops != t2.ops || t.wire != t2.wire || t.seen != t2.seen {
        return Err(format!("setting {:?} has not the same effect as {:?}: {:?} and {:?}", c.opts, once.cfg.opts, t.ops, t2.ops));
    }
    if t.open.is_ok() {
        let mut alone = s.clone();
        alone.cfg.opts = vec![Opt::Pipelining(c.pipelining())];
        alone.greeting = Reply::new(220, "hi");
        let t3 = run_session(&alone);
        if overlaps(t) != overlaps(&t3) {
            return Err(format!("pipelining is used: {} with {:?}, {} with {:?}", overlaps(t), c.opts, overlaps(&t3), alone.cfg.opts));
        }
    }
    Ok(())
}

pub fn p17(ctx: &mut Ctx) {
    ctx.rule = "a case opens a connection with a generated sequence of builder calls, greeting and EHLO reply, then sends one email to observe the options, and again with each option set once and with the pipelining option alone; non-trivial: several options set, an option overridden, a multi-line or rejecting greeting or EHLO reply, or no greeting expected".into();
    let g = SendGen { max_rcpt: 3, rejected: 0, closing: false, failing_source: 0, small: true, many: true };
    let strat = move || {
        (cfg_any(), session(send_op(g).prop_map(|s| vec![Op::Send(s)]).boxed()), prop_oneof![3 => reply_code(Just(220).boxed()), 1 => reply_code(code_2xx()), 1 => neg(), 1 => neg_close()], proptest::option::weighted(0.15, neg()))
            .prop_map(|(cfg, mut s, greeting, ehlo)| {
                s.cfg = cfg;
                s.greeting = greeting;
                if let Some(r) = ehlo {
                    s.ehlo_code = r.code;
                    s.caps.lines = r.lines;
                }
                s
            })
            .boxed()
    };
    let want = Want { results: true, params: true, order: true, ..Want::default() };
    ctx.random("openings", 60_000, 1_500_000, strat, move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        check_opening_events(s, &t)?;
        if s.ehlo_code >= 400 {
            let n = t.log.iter().filter(|e| matches!(e, Ev::Cmd { .. })).count();
            if n > 1 {
                return Err("the client went on after EHLO was rejected".into());
            }
        }
        check_options(s, &t)?;
        let rejected = (s.cfg.greeting() && s.greeting.code >= 400) || s.ehlo_code >= 400;
        Ok(Info::new(s.cfg.opts.len() > 1 || rejected || s.greeting.lines.len() > 1 || !s.cfg.greeting())
            .label(!s.cfg.greeting(), "no greeting expected")
            .label(rejected, "rejected")
            .label(s.cfg.greeting() && s.greeting.lines.len() > 1, "multi-line greeting")
            .label(!matches!(s.cfg.hello(), Hello::Default), "identity set")
            .label(matches!(s.cfg.hello(), Hello::V6(_)), "IPv6 identity")
            .execs(3))
    });
}
