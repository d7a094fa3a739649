//! Properties over whole sessions against the strict model server.
use super::content::*;
use crate::drive::*;
use crate::gen::*;
use crate::oracle::*;
use crate::run::{Ctx, Info};
use crate::server::Ev;
use crate::types::*;
use async_smtp::authentication::{Credentials, IntoCredentials, DEFAULT_ENCRYPTED_MECHANISMS, DEFAULT_UNENCRYPTED_MECHANISMS};
use async_smtp::commands::AuthCommand;
use async_smtp::response::Response;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn sends(s: &Session) -> impl Iterator<Item = &SendOp> {
    s.ops.iter().filter_map(|o| if let Op::Send(m) = o { Some(m) } else { None })
}

fn fails(op: &Op, caps: &Caps) -> bool {
    !matches!(expect_op(op, caps), Exp::Ok | Exp::OkReply(..) | Exp::Any)
}

fn uses_pipelining(s: &Session) -> bool {
    s.caps.pipelining && s.cfg.pipelining()
}

/// Authentication that a server accepts or rejects cleanly.
fn good_auth() -> BoxedStrategy<Op> {
    (any_mech(), creds(), final_auth())
        .prop_map(|(mech, creds, f)| {
            let mut steps = if mech == M::Login { vec![challenge(b"Username:"), challenge(b"Password:")] } else { vec![] };
            steps.push(f);
            Op::Auth { mech, creds, steps }
        })
        .boxed()
}

pub fn p02(ctx: &mut Ctx) {
    ctx.rule = "a case is a session: opening, up to 2 accepted emails, then one operation with arbitrary server verdicts; non-trivial: some step is rejected, or a multi-line or text-less reply decides a result".into();
    let good = SendGen { max_rcpt: 2, rejected: 0, closing: false, failing_source: 0, small: true, many: false };
    let wild = SendGen { max_rcpt: 6, rejected: 75, closing: true, failing_source: 0, small: true, many: true };
    let strat = move || {
        let last = prop_oneof![
            8 => send_op(wild).prop_map(Op::Send),
            2 => auth_op(),
            2 => try_login_op(),
            1 => neg().prop_map(Op::Quit),
            1 => neg_close().prop_map(Op::Quit),
            2 => starttls_op(),
            1 => neg_close().prop_map(Op::StartTls),
            1 => (auth_op(), neg_close()).prop_map(|(mut o, r)| {
                if let Op::Auth { steps, .. } = &mut o {
                    *steps.last_mut().unwrap() = r;
                }
                o
            }),
            1 => reply_code(code_2xx()).prop_map(|r| Op::Quit(Reply { close: true, ..r })),
        ];
        let ops = (vec(send_op(good).prop_map(Op::Send), 0..3), last)
            .prop_map(|(mut v, l)| {
                v.push(l);
                v
            })
            .boxed();
        (session(ops), 0u8..20, prop_oneof![3 => neg(), 1 => neg_close()], any::<bool>())
            .prop_map(|(mut s, k, r, close)| {
                match k {
                    0 => s.greeting = Reply { close: close || r.close, ..r },
                    1 => {
                        s.ehlo_code = r.code;
                        s.caps.lines = r.lines;
                    }
                    _ => {}
                }
                s
            })
            .boxed()
    };
    let want = Want { results: true, commands: true, clean_end: true, ..Want::default() };
    ctx.random("sessions", 60_000, 2_000_000, strat, move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        for (i, m) in s.ops.iter().enumerate() {
            if let Op::Send(m) = m {
                if first_rejection(m).is_some() && t.log.iter().any(|e| matches!(e, Ev::Data { op, .. } if *op == i as i32)) {
                    return Err(format!("op {i}: content was transmitted although the envelope was rejected"));
                }
            }
        }
        let rejected = s.ops.iter().any(|o| fails(o, &s.caps)) || s.greeting.code >= 400 || s.ehlo_code >= 400;
        let multi = sends(s).any(|m| m.end.lines.len() > 1 || m.end.lines[0].is_empty());
        Ok(Info::new(rejected || multi)
            .label(rejected, "some step rejected")
            .label(uses_pipelining(s), "pipelining in use")
            .label(sends(s).any(|m| first_rejection(m).is_some() && m.mail.is_2xx()), "recipient or data rejected")
            .label(sends(s).any(|m| first_rejection(m).is_none() && !m.end.is_2xx()), "content rejected")
            .label(op_closes(&s.ops), "server closes"))
    });
}

pub fn p03(ctx: &mut Ctx) {
    ctx.rule = "a case is a session of 1-5 emails (1-12 recipients) that the server accepts, possibly with a login first; non-trivial: several emails, several recipients, or a null sender".into();
    let g = SendGen { max_rcpt: 12, rejected: 0, closing: false, failing_source: 0, small: true, many: true };
    let strat = move || {
        let ops = (proptest::option::weighted(0.2, (good_auth(), prop_oneof![2 => Just(0usize), 1 => 0usize..6])), history(g, 5, false))
            .prop_map(|(a, mut v)| {
                if let Some((a, i)) = a {
                    // Quitting and STARTTLS come last.
                    let n = v.iter().filter(|o| matches!(o, Op::Send(_))).count();
                    v.insert(i.min(n), a);
                }
                v
            })
            .boxed();
        session(ops)
    };
    let want = Want { results: true, deliveries: true, commands: true, strict_commands: true, clean_end: true, ..Want::default() };
    let check = move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        let n = sends(s).count();
        let dup = sends(s).any(|m| (1..m.to.len()).any(|i| m.to[..i].iter().any(|x| x.0 == m.to[i].0)));
        Ok(Info::new(n > 1 || sends(s).any(|m| m.to.len() > 1 || m.from.is_none()))
            .label(n > 1, "several emails")
            .label(dup, "repeated recipient")
            .label(sends(s).any(|m| m.from.is_none()), "null sender")
            .label(uses_pipelining(s), "pipelining in use"))
    };
    ctx.random("sessions", 40_000, 1_500_000, strat, check);
    let g2 = SendGen { max_rcpt: 4, many: false, ..g };
    ctx.random("long", 320, 12_000, move || long_session(long_history(send_op(g2).prop_map(Op::Send).boxed(), g2, 700)), check);
    // More emails, and more recipients of one email, than 16 bits count.
    ctx.enumerate("huge", 4, |i| (i / 2 == 0, i % 2 == 0), move |(rcpt, pipelining): &(bool, bool)| {
        let mut m = simple_send(vec![Tok::Lit(b".\r\n".to_vec())]);
        let ops = if *rcpt {
            m.to = (0..70_000).map(|i| (format!("{i}@x"), Reply::new(250, "ok"))).collect();
            vec![Op::Send(m.clone()), Op::Send(SendOp { to: m.to[..2].to_vec(), ..m })]
        } else {
            (0..70_000).map(|i| Op::Send(SendOp { from: Some(format!("{i}@x")), ..m.clone() })).collect()
        };
        let mut s = simple_session(ops);
        if *pipelining {
            s.caps.pipelining = true;
            s.caps.lines.push("PIPELINING".into());
        }
        check(&s)
    });
}

pub fn p04(ctx: &mut Ctx) {
    ctx.rule = "a case is a history of up to 6 emails and logins with rejections, failing sources and unanswerable challenges at any step, then possibly quit, on one connection; non-trivial: some operation fails and another follows it".into();
    let g = SendGen { max_rcpt: 4, rejected: 45, closing: false, failing_source: 10, small: true, many: true };
    let strat = move || session(history(g, 6, true));
    let check = |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, ALL)?;
        if t.in_auth {
            return Err("the server is left in the middle of an authentication exchange".into());
        }
        let f: Vec<usize> = (0..s.ops.len()).filter(|i| fails(&s.ops[*i], &s.caps)).collect();
        let nt = f.first().map_or(false, |i| i + 1 < s.ops.len());
        let followed = |p: &dyn Fn(&Op) -> bool| (0..s.ops.len().saturating_sub(1)).any(|i| p(&s.ops[i]));
        Ok(Info::new(nt)
            .label(
                uses_pipelining(s) && followed(&|o| matches!(o, Op::Send(m) if !m.source_fails() && first_rejection(m).is_some() && m.mail.is_2xx())),
                "pipelined recipient or data rejection, then more",
            )
            .label(
                !uses_pipelining(s) && followed(&|o| matches!(o, Op::Send(m) if !m.source_fails() && first_rejection(m).is_some() && m.mail.is_2xx())),
                "sequential recipient or data rejection, then more",
            )
            .label(followed(&|o| matches!(o, Op::Send(m) if m.source_fails())), "source failure, then more")
            .label(followed(&|o| !matches!(o, Op::Send(_)) && fails(o, &s.caps)), "failed login, then more"))
    };
    ctx.random("histories", 60_000, 2_000_000, strat, check);
    let g = SendGen { rejected: 70, many: false, ..g };
    let strat = move || {
        let op = prop_oneof![5 => send_op(g).prop_map(Op::Send), 1 => auth_op(), 1 => try_login_op()].boxed();
        long_session(long_history(op, g, 700))
    };
    ctx.random("long", 320, 12_000, strat, check);
}

fn with_pipelining(s: &Session, advertised: bool, enabled: bool) -> Session {
    let mut s = s.clone();
    s.caps.lines.retain(|l| l != "PIPELINING");
    s.caps.pipelining = advertised;
    if advertised {
        s.caps.lines.push("PIPELINING".into());
    }
    s.cfg.opts.push(Opt::Pipelining(enabled));
    s
}

pub fn p05(ctx: &mut Ctx) {
    ctx.rule = "a case is one history of emails and server decisions, run under all four combinations of advertised and enabled pipelining and compared; non-trivial: an email has several recipients or some step is rejected".into();
    let g = SendGen { max_rcpt: 6, rejected: 35, closing: false, failing_source: 5, small: true, many: true };
    let strat = move || session(history(g, 4, true));
    let want = Want { order: true, ..Want::default() };
    let check = move |s: &Session| {
        let mut first: Option<(Vec<Res>, Vec<Ev>)> = None;
        for (adv, en) in [(false, false), (false, true), (true, false), (true, true)] {
            let s2 = with_pipelining(s, adv, en);
            let t = run_session(&s2);
            let ctxs = format!("advertised {adv}, enabled {en}");
            check_session(&s2, &t, want).map_err(|e| format!("{ctxs}: {e}"))?;
            let got: Vec<Ev> = t
                .log
                .iter()
                .filter_map(|e| match e {
                    Ev::Data { op, from, to, content, code, .. } => Some(Ev::Data {
                        op: *op,
                        from: from.clone(),
                        to: to.clone(),
                        content: content.clone(),
                        start: 0,
                        reply_end: 0,
                        code: *code,
                    }),
                    _ => None,
                })
                .collect();
            match &first {
                None => first = Some((t.ops.clone(), got)),
                Some((r, d)) => {
                    if *r != t.ops {
                        return Err(format!("{ctxs}: results {:?}, without pipelining {:?}", t.ops, r));
                    }
                    if *d != got {
                        return Err(format!("{ctxs}: the server received other messages than without pipelining"));
                    }
                }
            }
        }
        let rejected = sends(s).any(|m| first_rejection(m).is_some());
        Ok(Info::new(rejected || sends(s).any(|m| m.to.len() > 1))
            .label(rejected, "some envelope rejected")
            .label(sends(s).any(|m| m.to.len() > 3), "more than 3 recipients")
            .execs(4))
    };
    ctx.random("four-ways", 20_000, 600_000, strat, check);
    let g = SendGen { many: false, ..g };
    let strat = move || {
        let op = prop_oneof![8 => send_op(g).prop_map(Op::Send), 1 => auth_op()].boxed();
        long_session(long_history(op, g, 600))
    };
    ctx.random("long", 120, 4_000, strat, check);
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FaultCase {
    s: Session,
    /// Used when the session is too long to try every position.
    stride: u16,
    /// In a replay: only this fault.
    only: Option<Fault>,
}

pub fn p08(ctx: &mut Ctx) {
    ctx.rule = "a case is a session; for each kind of failure (write error, write accepting nothing, flush error, read error, end of stream; persistent and one-shot) it is run again with the failure at every byte or flush (at a stride, if the session is long); non-trivial: at least one injected failure fired while an email was being sent".into();
    let g = SendGen { max_rcpt: 3, rejected: 20, closing: false, failing_source: 0, small: true, many: false };
    let strat = move || {
        (session(history(g, 2, true)), any::<u16>())
            .prop_map(|(mut s, stride)| {
                s.net.win = None;
                FaultCase { s, stride, only: None }
            })
            .boxed()
    };
    let check = move |c: &FaultCase, budget: u64| {
        let clean = run_session(&c.s);
        if let Some(r) = clean.ops.iter().chain([&clean.open]).find(|r| matches!(r, Res::Stalled(_) | Res::Panicked(_))) {
            return Err(format!("without any failure: {r:?}"));
        }
        let (w, r, f) = clean.totals;
        let mut runs = 1;
        let mut in_send = false;
        let mut fired = 0u64;
        let mut one = |fault: Fault| -> Result<(), String> {
            let s = Session { fault: Some(fault), ..c.s.clone() };
            let t = run_session(&s);
            runs += 1;
            let Some(i) = t.fired_in else { return Ok(()) };
            fired += 1;
            let at = format!("{fault:?}");
            check_after(&t).map_err(|e| format!("{at} during op {i}: {e}"))?;
            let res = if i < 0 { &t.open } else { &t.ops[i as usize] };
            if !res.is_err() {
                return Err(format!("{at} during op {i}: the operation ended with {res:?}"));
            }
            for k in 0..(i.max(0) as usize) {
                if t.ops[k] != clean.ops[k] {
                    return Err(format!("{at} during op {i}: op {k} ended with {:?} instead of {:?}", t.ops[k], clean.ops[k]));
                }
            }
            if i >= 0 && matches!(c.s.ops[i as usize], Op::Send(_)) {
                in_send = true;
            }
            for e in &t.log {
                if let Ev::Data { op, content, .. } = e {
                    let Some(Op::Send(m)) = c.s.ops.get(*op as usize) else {
                        return Err(format!("{at}: the server got a message during op {op}"));
                    };
                    if !crate::refs::content_ok(&toks_bytes(&m.body), content) {
                        return Err(format!(
                            "{at} during op {i}: the server got the finished message {:?} for body {:?}",
                            show_bytes(content),
                            show_bytes(&toks_bytes(&m.body))
                        ));
                    }
                }
            }
            Ok(())
        };
        if let Some(f) = c.only {
            one(f)?;
            return Ok(Info::new(in_send));
        }
        for kind in [FaultKind::WriteErr, FaultKind::WriteZero, FaultKind::FlushErr, FaultKind::ReadErr, FaultKind::Eof] {
            let n = match kind {
                FaultKind::WriteErr | FaultKind::WriteZero => w,
                FaultKind::FlushErr => f,
                _ => r,
            };
            let step = (n / budget).max(1);
            let start = if step > 1 { c.stride as u64 % step } else { 0 };
            let mut at = start;
            while at < n {
                for once in [false, true] {
                    if once && (kind == FaultKind::Eof || kind == FaultKind::WriteZero) {
                        continue;
                    }
                    one(Fault { kind, at, once, err: (at % 10) as u8 })?;
                }
                at += step;
            }
        }
        Ok(Info::new(in_send).label(uses_pipelining(&c.s), "pipelining in use").label(fired > 500, "more than 500 failures fired").execs(runs))
    };
    let thorough = ctx.thorough;
    ctx.random("faults", 480, 25_000, strat, move |c| check(c, if thorough { 1200 } else { 250 }));
    // Large bodies, or many recipients.
    let g = SendGen { rejected: 10, small: false, many: false, ..g };
    let strat = move || {
        (send_op(g), history(SendGen { small: true, ..g }, 1, false), prop_oneof![2 => log_size(2_000, 300_000).prop_map(|n| (n, 0u16)), 1 => (Just(0), 8u16..120)], any::<bool>(), any::<u16>())
            .prop_flat_map(|(m, ops, (n, rcpt), adv, stride)| {
                let body = if n > 0 { dense(Just(n).boxed()) } else { Just(m.body.clone()).boxed() };
                body.prop_flat_map(move |body| {
                    let mut m = m.clone();
                    m.body = body;
                    m.source = if let Source::Reader { .. } = m.source { Source::Reader { chunks: vec![8192, 1000], fail: None } } else { Source::Bytes };
                    m.to.extend((0..rcpt).map(|i| (format!("r{i}@x"), Reply::new(250, "ok"))));
                    let mut v = vec![Op::Send(m)];
                    v.extend(ops.clone());
                    (long_session(Just(v).boxed()), Just(adv)).prop_map(move |(mut s, adv)| {
                        if adv && !s.caps.pipelining {
                            s.caps.pipelining = true;
                            s.caps.lines.push("PIPELINING".into());
                        }
                        s.net.win = None;
                        FaultCase { s, stride, only: None }
                    })
                })
            })
            .boxed()
    };
    ctx.random("large", 48, 2_500, strat, move |c| check(c, if thorough { 200 } else { 40 }));
    abandoned(ctx);
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DropCase {
    s: Session,
    stride: u16,
}

fn abandoned(ctx: &mut Ctx) {
    let g = SendGen { max_rcpt: 3, rejected: 20, closing: false, failing_source: 5, small: true, many: false };
    let pauses = || vec(prop_oneof![2 => Just(0u16), 1 => 1u16..5, 1 => 1u16..100], 1..5);
    let strat = move || {
        (session(history(g, 2, true)), pauses(), pauses(), any::<u16>())
            .prop_map(|(mut s, w, r, stride)| {
                s.net.wchunks = w;
                s.net.rchunks = r;
                DropCase { s, stride }
            })
            .boxed()
    };
    let thorough = ctx.thorough;
    ctx.random("abandoned", 400, 20_000, strat, move |c: &DropCase| {
        let (clean, n) = run_session_for(&c.s, u64::MAX);
        let step = (n / if thorough { 1000 } else { 150 }).max(1);
        let mut at = c.stride as u64 % step;
        let mut runs = 1;
        let mut in_send = false;
        while at < n {
            let (t, _) = run_session_for(&c.s, at);
            runs += 1;
            for (k, r) in t.ops.iter().enumerate() {
                match r {
                    Res::Stalled(m) if m == ABANDONED => in_send |= matches!(c.s.ops[k], Op::Send(_)),
                    r if *r != clean.ops[k] => return Err(format!("abandoned after {at} polls: op {k} ended with {r:?} instead of {:?}", clean.ops[k])),
                    _ => {}
                }
            }
            for e in &t.log {
                if let Ev::Data { op, content, .. } = e {
                    let ok = matches!(c.s.ops.get(*op as usize), Some(Op::Send(m)) if crate::refs::content_ok(&toks_bytes(&m.body), content));
                    if !ok {
                        return Err(format!("abandoned after {at} polls: the server got the finished message {:?} during op {op}", show_bytes(content)));
                    }
                }
            }
            at += step;
        }
        Ok(Info::new(in_send).execs(runs))
    });
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Together {
    sessions: Vec<Session>,
    schedule: Vec<u8>,
    /// Whether they move between threads.
    moving: bool,
    /// The first one rests after so many polls until the others have ended, or is dropped.
    hold: Option<(u16, bool)>,
}

/// Makes two sessions alike in what a program might tell them apart by.
fn relate_sessions(v: &mut [Session], how: u8, k: usize) {
    let a = v[0].clone();
    let b = &mut v[1];
    let bits = |n: u32| how >> n & 1 == 1;
    if bits(0) && bits(1) {
        // The same server by name.
        b.caps.lines[0] = a.caps.lines[0].clone();
    }
    if bits(2) && bits(3) {
        b.greeting = a.greeting.clone();
    }
    if bits(4) && bits(5) {
        // The same identity; other options may differ.
        b.cfg.opts.retain(|o| !matches!(o, Opt::Hello(_)));
        b.cfg.opts.extend(a.cfg.opts.iter().filter(|o| matches!(o, Opt::Hello(_))).cloned());
    }
    if bits(6) {
        // The same email or login, at some place.
        if let (Some(x), Some(y)) = (a.ops.get(k % a.ops.len().max(1)), b.ops.get_mut(k / 16 % a.ops.len().max(1))) {
            match (x, &mut *y) {
                (Op::Send(m), Op::Send(n)) => {
                    let c = n.to.len();
                    n.from = m.from.clone();
                    n.to = m.to.iter().enumerate().map(|(i, t)| (t.0.clone(), n.to[i % c].1.clone())).collect();
                }
                (Op::Auth { .. }, Op::Auth { .. }) | (Op::TryLogin { .. }, Op::TryLogin { .. }) => *y = x.clone(),
                _ => {}
            }
        }
    }
    if bits(7) && bits(0) {
        // As many capabilities, or the reversed order of them.
        let n = a.caps.lines.len();
        while b.caps.lines.len() < n && b.caps.lines.len() < 40 {
            let i = b.caps.lines.len();
            b.caps.lines.push(format!("X-{i}"));
        }
    }
}

pub fn p22(ctx: &mut Ctx) {
    ctx.rule = "a case is two or three sessions on connections of their own and a schedule; they run together, polled in the order of the schedule, on one thread or moving between three, at times with one that rests in the middle or is dropped there, and each must be exactly what it is alone; non-trivial: at least two of them have operations and pause".into();
    let g = SendGen { max_rcpt: 4, rejected: 25, closing: true, failing_source: 10, small: true, many: true };
    let strat = move || {
        let fault = proptest::option::weighted(0.15, (proptest::sample::select(vec![FaultKind::WriteErr, FaultKind::FlushErr, FaultKind::ReadErr, FaultKind::Eof]), 0u64..500, 0..ERRORS.len() as u8));
        let one = (session(history(g, 3, true)), chunks(), chunks(), 0u8..3, fault).prop_map(|(mut s, mut w, mut r, k, fault)| {
            s.fault = fault.map(|(kind, at, err)| Fault { kind, at: if kind == FaultKind::FlushErr { at % 20 } else { at }, once: false, err });
            // Something must make them wait.
            if k > 0 {
                r.push(0);
                w.push(0);
                s.net.rchunks = r;
                s.net.wchunks = w;
            }
            s
        });
        (vec(one, 2..4), vec(any::<u8>(), 0..24), any::<u8>(), any::<u16>(), proptest::bool::weighted(0.25), proptest::option::weighted(0.4, (log_size(1, 60), any::<bool>())))
            .prop_map(|(mut sessions, schedule, how, k, moving, hold)| {
                relate_sessions(&mut sessions, how, k as usize);
                Together { sessions, schedule, moving, hold: hold.map(|(n, drop)| (n as u16, drop)) }
            })
            .boxed()
    };
    ctx.random("together", 20_000, 800_000, strat, |c: &Together| {
        let ts = run_together(&c.sessions, &c.schedule, c.moving, c.hold);
        for (i, (s, t)) in c.sessions.iter().zip(&ts).enumerate() {
            if i == 0 && matches!(c.hold, Some((_, true))) {
                // It may have been dropped in the middle.
                continue;
            }
            let a = run_session(s);
            if a.open != t.open || a.ops != t.ops {
                return Err(format!("session {i}: {:?} {:?} together with others, {:?} {:?} alone", t.open, t.ops, a.open, a.ops));
            }
            let alone: Vec<&Ev> = a.log.iter().filter(|e| e.op() < 1000).collect();
            if a.wire != t.wire && a.after.is_empty() || alone != t.log.iter().collect::<Vec<_>>() {
                return Err(format!("session {i}: wrote {:?} together with others, {:?} alone", show_bytes(&t.wire), show_bytes(&a.wire)));
            }
        }
        let pauses = c.sessions.iter().filter(|s| !s.ops.is_empty() && (s.net.rchunks.contains(&0) || s.net.wchunks.contains(&0))).count();
        Ok(Info::new(pauses > 1)
            .label(c.sessions.iter().any(|s| uses_pipelining(s)) && c.sessions.iter().any(|s| !uses_pipelining(s)), "only some use pipelining")
            .label(c.sessions.len() > 2, "three sessions")
            .label(c.moving, "moving between threads")
            .label(matches!(c.hold, Some((_, false))), "one rests for a while")
            .label(matches!(c.hold, Some((_, true))), "one is dropped in the middle")
            .execs(2 * c.sessions.len() as u64))
    });
}

pub fn p11(ctx: &mut Ctx) {
    ctx.rule = "a case is a session whose server advertises a set of mechanisms and a login with an ordered list of acceptable ones; all sets and all lists up to length 3 are enumerated, longer lists and credentials are generated; non-trivial: the list is not empty and differs from the advertised set".into();
    let mut lists: Vec<Vec<M>> = vec![vec![]];
    let mut k = 0;
    while k < lists.len() {
        if lists[k].len() < 3 {
            for m in M::ALL {
                let mut l = lists[k].clone();
                l.push(m);
                lists.push(l);
            }
        }
        k += 1;
    }
    let nl = lists.len();
    let want = Want { results: true, commands: true, strict_commands: true, auth_lines: true, ..Want::default() };
    let check = move |s: &Session| -> Result<Info, String> {
        let t = run_session(s);
        check_session(s, &t, want)?;
        let Op::TryLogin { mechs, .. } = &s.ops[0] else { unreachable!() };
        let c = chosen(mechs, &s.caps);
        let opening: u64 = t.log.iter().find_map(|e| if let Ev::Cmd { op: -1, line, start, .. } = e { Some(start + line.len() as u64 + 2) } else { None }).unwrap_or(0);
        if c.is_none() && t.wire.len() as u64 != opening {
            return Err(format!("no acceptable mechanism, but the client wrote {:?}", show_bytes(&t.wire[opening as usize..])));
        }
        let mut sorted = mechs.clone();
        sorted.sort();
        sorted.dedup();
        Ok(Info::new(!mechs.is_empty() && sorted != s.caps.auth)
            .label(c.is_none(), "none acceptable")
            .label(c.is_some() && c != mechs.first().copied(), "a later choice")
            .label(c == Some(M::Login), "LOGIN chosen"))
    };
    let mk = |auth: Vec<M>, mechs: Vec<M>| {
        let mut s = simple_session(vec![]);
        if !auth.is_empty() {
            s.caps.lines.push(format!("AUTH {}", auth.iter().map(|m| m.name()).collect::<Vec<_>>().join(" ")));
        }
        s.caps.auth = auth;
        let steps = match chosen(&mechs, &s.caps) {
            Some(M::Login) => vec![challenge(b"Username:"), challenge(b"Password:"), Reply::new(235, "ok")],
            _ => vec![Reply::new(235, "ok")],
        };
        s.ops.push(Op::TryLogin { mechs, creds: Creds { user: "user@x".into(), secret: "s3cret".into() }, steps });
        s
    };
    ctx.enumerate(
        "all-small",
        8 * nl,
        |i| {
            let mask = i / nl;
            let auth: Vec<M> = M::ALL.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|x| *x.1).collect();
            mk(auth, lists[i % nl].clone())
        },
        check,
    );
    ctx.enumerate("default-lists", 8, |i| i as u8, |mask: &u8| {
        let auth: Vec<M> = M::ALL.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|x| *x.1).collect();
        let mut s = mk(auth.clone(), vec![]);
        s.ops.clear();
        let server = crate::server::Server::new(Some(&s.greeting), ehlo_reply(&s));
        let link = crate::link::Link::new(&s.net, server, None);
        let mut t = open(&link, &s.cfg).map_err(|r| format!("opening: {r:?}"))?;
        let creds = Credentials::new("u".into(), "p".into());
        let before = link.borrow().wire.len();
        if let Run::Panicked(m) | Run::Stalled(m) = exec(&link, t.try_login(&creds, DEFAULT_UNENCRYPTED_MECHANISMS)) {
            return Err(m);
        }
        if link.borrow().wire.len() != before || !DEFAULT_UNENCRYPTED_MECHANISMS.is_empty() {
            return Err("credentials may be sent on an unencrypted connection by default".into());
        }
        // On encrypted connections PLAIN comes before the deprecated LOGIN.
        let steps = if auth.contains(&M::Plain) { vec![Reply::new(235, "ok")] } else { vec![challenge(b"Username:"), challenge(b"Password:"), Reply::new(235, "ok")] };
        link.borrow_mut().begin(0, crate::server::Script::Auth { steps });
        if let Run::Panicked(m) | Run::Stalled(m) = exec(&link, t.try_login(&creds, DEFAULT_ENCRYPTED_MECHANISMS)) {
            return Err(m);
        }
        let wire = link.borrow().wire[before..].to_vec();
        let exp = if auth.contains(&M::Plain) { "AUTH PLAIN " } else if auth.contains(&M::Login) { "AUTH LOGIN\r\n" } else { "" };
        if !(wire.starts_with(exp.as_bytes()) && (!exp.is_empty() || wire.is_empty())) {
            return Err(format!("advertised {auth:?}: the default list led to {:?}", show_bytes(&wire)));
        }
        Ok(Info::new(true))
    });
    let strat = || session(try_login_op().prop_map(|o| vec![o]).boxed());
    ctx.random("random", 25_000, 800_000, strat, check);
    // Several logins, with emails and failures between them.
    let g = SendGen { max_rcpt: 2, rejected: 30, closing: false, failing_source: 10, small: true, many: false };
    let strat = move || {
        let op = prop_oneof![4 => try_login_op(), 1 => auth_op(), 1 => send_op(g).prop_map(Op::Send)];
        session(vec(op, 2..6).boxed())
    };
    let want = Want { strict_commands: false, ..want };
    let check = move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        let logins = s.ops.iter().filter(|o| matches!(o, Op::TryLogin { .. })).count();
        Ok(Info::new(logins > 1).label(s.ops[..s.ops.len() - 1].iter().any(|o| matches!(o, Op::TryLogin { .. }) && fails(o, &s.caps)), "after a failed login"))
    };
    ctx.random("several", 25_000, 800_000, strat, check);
    let strat = move || {
        let op = prop_oneof![4 => try_login_op(), 1 => auth_op(), 1 => send_op(g).prop_map(Op::Send)].boxed();
        let last = (long_history(op, g, 600), vec(try_login_op(), 1..3)).prop_map(|(mut v, l)| {
            v.extend(l);
            v
        });
        long_session(last.boxed())
    };
    ctx.random("long", 200, 8_000, strat, check);
}

pub fn p12(ctx: &mut Ctx) {
    ctx.rule = "a case is a session with one authentication: any mechanism, credentials, challenge sequence and final verdict; or one call of the mechanism's response function; non-trivial: the exchange has a challenge, or the credentials are not plain ASCII letters and digits".into();
    let want = Want { results: true, commands: true, auth_lines: true, clean_end: true, ..Want::default() };
    let check = move |s: &Session| -> Result<Info, String> {
        let t = run_session(s);
        let alone = s.ops.len() == 1;
        check_session(s, &t, Want { strict_commands: alone, ..want })?;
        let Some(Op::Auth { creds, steps, mech }) = s.ops.last() else { unreachable!() };
        let n = steps.iter().filter(|r| r.code == 334).count();
        let odd = |x: &str| x.is_empty() || !x.chars().all(|c| c.is_ascii_alphanumeric());
        let exp = expect_op(s.ops.last().unwrap(), &s.caps);
        Ok(Info::new(n > 0 || odd(&creds.user) || odd(&creds.secret))
            .label(n > 0, "has challenges")
            .label(*mech == M::Login && n >= 2 && matches!(exp, Exp::OkReply(..)), "LOGIN completes")
            .label(exp == Exp::Err, "unanswerable challenge")
            .label(matches!(exp, Exp::Rej(..)), "rejected"))
    };
    let strat = || {
        let op = prop_oneof![
            4 => auth_op(),
            3 => (creds(), auth_steps()).prop_map(|(creds, steps)| Op::Auth { mech: M::Login, creds, steps }),
            1 => (creds(), prop_oneof![2 => 10usize..40, 1 => 65usize..150], good_challenge()).prop_map(|(creds, n, c)| Op::Auth { mech: M::Login, creds, steps: std::iter::repeat(c).take(n + 1).collect() }),
        ];
        let g = SendGen { max_rcpt: 2, rejected: 30, closing: false, failing_source: 10, small: true, many: false };
        let before = prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![3 => auth_op(), 1 => try_login_op(), 1 => send_op(g).prop_map(Op::Send)], 1..4)];
        let ops = (before, op, any::<u8>())
            .prop_map(|(mut v, o, k)| {
                // The same credentials again, at times.
                if let (true, Op::Auth { creds: a, .. }, Some(Op::Auth { creds: b, .. })) = (k % 4 == 0, &o, v.last_mut()) {
                    *b = a.clone();
                }
                v.push(o);
                v
            })
            .boxed();
        session(ops)
    };
    ctx.random("exchanges", 90_000, 1_500_000, strat, check);

    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct RespCase {
        mech: M,
        creds: Creds,
        challenge: Option<String>,
        /// The code of the reply that carries it.
        code: u16,
    }
    let strat = || {
        (
            any_mech(),
            creds(),
            proptest::option::weighted(
                0.8,
                prop_oneof![
                    3 => proptest::sample::select(crate::refs::USER_PROMPTS.to_vec()).prop_map(String::from),
                    3 => proptest::sample::select(crate::refs::PASS_PROMPTS.to_vec()).prop_map(String::from),
                    2 => bad_challenge().prop_map(|r| crate::refs::unb64(r.lines[0].as_bytes()).and_then(|b| String::from_utf8(b).ok()).unwrap_or_default()),
                    1 => "[ -~]{0,12}",
                ],
            ),
            prop_oneof![3 => Just(334u16), 1 => proptest::sample::select(vec![330u16, 335, 434, 234, 354, 235, 535, 534, 250, 332, 344]), 1 => code_2xx(), 1 => code_neg()],
        )
            .prop_map(|(mech, creds, challenge, code)| RespCase { mech, creds, challenge, code })
            .boxed()
    };
    let respond = |c: &RespCase| {
        let cr = Credentials::new(c.creds.user.clone(), c.creds.secret.clone());
        if (c.creds.user.as_str(), c.creds.secret.clone()).into_credentials() != cr || cr.clone().into_credentials() != cr {
            return Err("converting to credentials changes them".into());
        }
        let m = mech(c.mech);
        let got = guard(|| m.response(&cr, c.challenge.as_deref()))?.ok();
        let exp = match (c.mech, &c.challenge) {
            (M::Plain, None) => Some(format!("\0{}\0{}", c.creds.user, c.creds.secret)),
            (M::Xoauth2, None) => Some(format!("user={}\x01auth=Bearer {}\x01\x01", c.creds.user, c.creds.secret)),
            (M::Login, Some(t)) if crate::refs::USER_PROMPTS.contains(&t.as_str()) => Some(c.creds.user.clone()),
            (M::Login, Some(t)) if crate::refs::PASS_PROMPTS.contains(&t.as_str()) => Some(c.creds.secret.clone()),
            _ => None,
        };
        if got != exp {
            return Err(format!("{:?} answers {got:?} to {:?}, expected {exp:?}", c.mech, c.challenge));
        }
        if m.supports_initial_response() != (c.mech != M::Login) || m.to_string() != c.mech.name() {
            return Err(format!("{:?}: wrong name or kind of exchange", c.mech));
        }
        if let Some(t) = &c.challenge {
            let r: Response = format!("{} {}\r\n", c.code, crate::refs::b64(t.as_bytes())).parse().map_err(|e: async_smtp::error::Error| e.to_string())?;
            let got = guard(|| AuthCommand::new_from_response(m, cr.clone(), &r).map(|a| a.to_string()))?.ok();
            let exp = exp.filter(|_| c.code == 334).map(|a| format!("{}\r\n", crate::refs::b64(a.as_bytes())));
            if got != exp {
                return Err(format!("{:?} answers {got:?} to {:?} in a reply {}, expected {exp:?}", c.mech, c.challenge, c.code));
            }
        }
        Ok(Info::new(c.challenge.is_some()))
    };
    ctx.random("responses", 40_000, 1_000_000, strat, respond);
    // Every prompt with one character replaced, inserted or left out, or with an affix.
    let prompts: Vec<&str> = crate::refs::USER_PROMPTS.iter().chain(&crate::refs::PASS_PROMPTS).copied().collect();
    let near = move |i: usize| {
        let (p, how, at, c) = (prompts[i / (3 * 12 * 160)], i / (12 * 160) % 3, i / 160 % 12, i % 160);
        let c = char::from_u32(if c < 128 { c as u32 } else { [0x85, 0xa0, 0x200b, 0x2028, 0xfeff, 0x130, 0x17f, 0x212a][c % 8] }).unwrap();
        let mut v: Vec<char> = p.chars().collect();
        let at = at.min(v.len());
        match how {
            0 => v.insert(at, c),
            1 if at < v.len() => v[at] = c,
            _ => {
                v.truncate(at);
                v.push(c);
            }
        }
        RespCase { mech: M::Login, creds: Creds { user: "user@x".into(), secret: "s3cret".into() }, challenge: Some(v.into_iter().collect()), code: 334 }
    };
    ctx.enumerate("near-prompts", 5 * 3 * 12 * 160, near, respond);
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WideCase {
    n: u16,
    addr_len: u8,
    reply_len: u16,
    reply_lines: u8,
    reject: Option<u16>,
    body: u32,
    win: (u16, u16),
    hold: Option<u32>,
    wchunks: Vec<u16>,
    rchunks: Vec<u16>,
    advertised: bool,
    emails: u8,
}

impl WideCase {
    fn session(&self) -> Session {
        let text = "x".repeat(self.reply_len as usize);
        let lines: Vec<String> = (0..self.reply_lines.max(1)).map(|_| text.clone()).collect();
        let ok = Reply { code: 250, lines: lines.clone(), bare: false, close: false };
        let ops = (0..self.emails.max(1))
            .map(|e| {
                let mut to: Vec<(String, Reply)> =
                    (0..self.n.max(1)).map(|i| (format!("{}{e}.{i}@x", "r".repeat(self.addr_len as usize)), ok.clone())).collect();
                if let Some(r) = self.reject {
                    let k = r as usize % to.len();
                    to[k].1 = Reply { code: 550, ..ok.clone() };
                }
                Op::Send(SendOp { to, body: vec![Tok::Fill(b'b', self.body)], ..simple_send(vec![]) })
            })
            .collect();
        let mut s = simple_session(ops);
        if self.advertised {
            s.caps.pipelining = true;
            s.caps.lines.push("PIPELINING".into());
        }
        s.net = Net {
            hold: self.hold,
            wchunks: self.wchunks.clone(),
            rchunks: self.rchunks.clone(),
            fpend: vec![false],
            win: Some((4096 + self.win.0 as u32, 4096 + self.win.1 as u32)),
        };
        s
    }
}

pub fn p18(ctx: &mut Ctx) {
    ctx.rule = "a case is a session over a transport with some buffering behaviour; it must complete on a scheduler where a read that cannot be satisfied is a definite stall; non-trivial: the transport holds bytes until flushed, splits or delays I/O, or has a finite window smaller than the commands of one email".into();
    let g = SendGen { max_rcpt: 5, rejected: 25, closing: false, failing_source: 5, small: false, many: true };
    let want = Want { results: true, clean_end: true, ..Want::default() };
    let strat = move || session(history(g, 3, true));
    ctx.random("buffering", 40_000, 1_200_000, strat, move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        Ok(Info::new(s.net != Net::plain())
            .label(s.net.hold.is_some(), "held until flushed")
            .label(s.net.rchunks.contains(&0) || s.net.wchunks.contains(&0), "not ready at times")
            .label(s.net.wchunks == [1], "one byte per write"))
    });
    let strat = || {
        (
            (prop_oneof![1 => 1u16..40, 3 => 40u16..600, 1 => 600u16..2500], 0u8..60, prop_oneof![2 => 0u16..40, 1 => 0u16..400], 1u8..3, proptest::option::weighted(0.3, any::<u16>())),
            prop_oneof![2 => Just(0u32), 1 => 0u32..100_000],
            (prop_oneof![2 => Just(0u16), 1 => 0u16..30000], prop_oneof![2 => Just(0u16), 1 => 0u16..30000]),
            prop_oneof![1 => Just(None), 1 => Just(Some(8192u32)), 1 => Just(Some(1 << 20))],
            proptest::sample::select(vec![vec![65535u16], vec![1000], vec![7, 65535]]),
            proptest::sample::select(vec![vec![65535u16], vec![100], vec![8192]]),
            prop_oneof![4 => Just(true), 1 => Just(false)],
            1u8..3,
        )
            .prop_map(|((n, addr_len, reply_len, reply_lines, reject), body, win, hold, wchunks, rchunks, advertised, emails)| WideCase {
                n,
                addr_len,
                reply_len,
                reply_lines,
                reject,
                body,
                win,
                hold,
                wchunks,
                rchunks,
                advertised,
                emails,
            })
            .boxed()
    };
    ctx.random("windows", 1_000, 30_000, strat, move |c: &WideCase| {
        let s = c.session();
        let t = run_session(&s);
        check_session(&s, &t, Want { deliveries: true, ..want })?;
        let cmds = c.n as u64 * (c.addr_len as u64 + 20);
        let reps = c.n as u64 * c.reply_lines as u64 * (c.reply_len as u64 + 6);
        Ok(Info::new(cmds > 4096 || reps > 4096)
            .label(cmds > 4096 + c.win.0 as u64 && reps > 4096 + c.win.1 as u64, "both windows smaller than the email's commands and replies"))
    });
}
