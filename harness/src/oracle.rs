//! What a session must look like: expected results, deliveries, commands and ordering, derived from the case alone.
use crate::refs::*;
use crate::server::*;
use crate::types::*;
use crate::drive::Trace;

/// Which statements about a session are decided.
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub results: bool,
    pub deliveries: bool,
    pub commands: bool,
    /// Only sender, recipient and data commands; no reset, no anything else.
    pub strict_commands: bool,
    pub params: bool,
    pub order: bool,
    pub auth_lines: bool,
    /// The last operation left nothing half done at the server.
    pub clean_end: bool,
}

pub const ALL: Want = Want {
    results: true,
    deliveries: true,
    commands: true,
    strict_commands: false,
    params: true,
    order: true,
    auth_lines: true,
    clean_end: true,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok,
    OkReply(u16, Vec<String>),
    Rej(u16, Vec<String>),
    /// Any error.
    Err,
    /// Any error that is not a server rejection.
    ErrNoReply,
    /// Any error that is not a server rejection, or this rejection.
    ErrOrRej(u16, Vec<String>),
    /// Either of the two is fine (left open by the statement).
    Any,
}

pub fn matches(exp: &Exp, got: &Res) -> bool {
    match (exp, got) {
        (Exp::Any, g) => g.is_ok() || g.is_err(),
        (Exp::Ok, Res::Ok) => true,
        (Exp::OkReply(c, l), Res::OkReply(c2, l2)) => c == c2 && l == l2,
        (Exp::Rej(c, l), Res::Transient(c2, l2)) => c / 100 == 4 && c == c2 && l == l2,
        (Exp::Rej(c, l), Res::Permanent(c2, l2)) => c / 100 == 5 && c == c2 && l == l2,
        (Exp::Err, g) => g.is_err(),
        (Exp::ErrNoReply, Res::Other(_)) => true,
        (Exp::ErrOrRej(c, l), g) => match g {
            Res::Other(_) => true,
            g => matches(&Exp::Rej(*c, l.clone()), g),
        },
        _ => false,
    }
}

fn rej(r: &Reply) -> Exp {
    Exp::Rej(r.code, r.lines.clone())
}

/// First reply that rejects the envelope, if any.
pub fn first_rejection(s: &SendOp) -> Option<&Reply> {
    if !s.mail.is_2xx() {
        return Some(&s.mail);
    }
    for (_, r) in &s.to {
        if !r.is_2xx() {
            return Some(r);
        }
    }
    if s.data.code != 354 {
        return Some(&s.data);
    }
    None
}

pub fn expect_send(s: &SendOp) -> (Exp, bool) {
    let fr = first_rejection(s);
    if s.source_fails() {
        return (
            match fr {
                Some(r) => Exp::ErrOrRej(r.code, r.lines.clone()),
                None => Exp::Err,
            },
            false,
        );
    }
    match fr {
        Some(r) => (rej(r), false),
        None if s.end.is_2xx() => (Exp::OkReply(s.end.code, s.end.lines.clone()), true),
        None => (rej(&s.end), false),
    }
}

/// A client that answers more challenges than this is taken to answer for ever.
const MAX_CHALLENGES: usize = 64;

/// Expected lines after the AUTH command, and the result.
/// The last component tells whether the client may give up with "*" after these lines.
pub fn expect_auth(m: M, c: &Creds, steps: &[Reply]) -> (String, Vec<String>, Exp, bool) {
    let first = match initial(m, &c.user, &c.secret) {
        Some(r) => format!("AUTH {} {}", m.name(), r),
        None => format!("AUTH {}", m.name()),
    };
    let mut lines = vec![];
    let mut challenges = 0;
    for r in steps {
        if r.code == 334 {
            challenges += 1;
            if challenges >= 10 {
                // The client gives up at some point; how many it answers exactly is not part of the contract.
                let n = steps.iter().take_while(|r| r.code == 334).count();
                let late_yes = n <= MAX_CHALLENGES && steps.get(n).map_or(false, |r| r.is_2xx());
                return (first, lines, if late_yes { Exp::Any } else { Exp::Err }, true);
            }
            let word = r.lines[0].split_whitespace().next();
            let a = match (m, word) {
                (M::Login, Some(w)) => login_answer(w, &c.user, &c.secret),
                _ => None,
            };
            match a {
                Some(a) => lines.push(a),
                None => return (first, lines, Exp::Err, true),
            }
        } else if r.is_2xx() {
            return (first, lines, Exp::OkReply(r.code, r.lines.clone()), false);
        } else {
            return (first, lines, rej(r), false);
        }
    }
    // Script exhausted: the model server answers 535.
    (first, lines, Exp::Rej(535, vec!["no more steps".into()]), false)
}

pub fn chosen(mechs: &[M], caps: &Caps) -> Option<M> {
    mechs.iter().copied().find(|m| caps.auth.contains(m))
}

pub fn expect_op(op: &Op, caps: &Caps) -> Exp {
    match op {
        Op::Send(s) => expect_send(s).0,
        Op::Auth { mech, creds, steps } => expect_auth(*mech, creds, steps).2,
        Op::TryLogin { mechs, creds, steps } => match chosen(mechs, caps) {
            None => Exp::Any,
            Some(m) => match expect_auth(m, creds, steps).2 {
                Exp::OkReply(..) => Exp::Ok,
                e => e,
            },
        },
        Op::StartTls(_) if !caps.starttls => Exp::ErrNoReply,
        Op::Quit(r) | Op::StartTls(r) => {
            if r.is_2xx() {
                Exp::Ok
            } else {
                rej(r)
            }
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if s.len() > 300 {
        format!("{}...[{} bytes]", &s[..300], b.len())
    } else {
        s
    }
}
pub use show as show_bytes;

fn verb(line: &[u8]) -> String {
    let s = String::from_utf8_lossy(line);
    s.split(|c| c == ' ' || c == ':').next().unwrap_or("").to_ascii_uppercase()
}

pub fn is_rset(e: &Ev) -> bool {
    matches!(e, Ev::Cmd { line, .. } if verb(line) == "RSET" || verb(line) == "NOOP")
}

/// Commands of one operation against what the operation may send.
fn check_commands(s: &Session, i: usize, op: &Op, got: &Res, evs: &[&Ev], want: Want) -> Result<(), String> {
    let bad = |m: String| Err(format!("op {i}: {m}"));
    for e in evs {
        if let Ev::Cmd { line, bad: Some(b), .. } = e {
            return bad(format!("server saw a protocol violation ({b}) in {:?}", show(line)));
        }
    }
    let evs: Vec<&&Ev> = if want.strict_commands { evs.iter().collect() } else { evs.iter().filter(|e| !is_rset(e)).collect() };
    match op {
        Op::Send(m) => {
            let mut expected: Vec<(String, String)> = vec![("MAIL FROM:".into(), m.from.clone().unwrap_or_default())];
            for (a, _) in &m.to {
                expected.push(("RCPT TO:".into(), a.clone()));
            }
            let accepted = first_rejection(m).is_none();
            let mut k = 0;
            let mut data = 0;
            let mut msgs = 0;
            for e in &evs {
                match e {
                    Ev::Cmd { line, .. } if verb(line) == "DATA" => {
                        if k != expected.len() || data > 0 {
                            return bad("DATA out of place".into());
                        }
                        data += 1;
                    }
                    Ev::Cmd { line, .. } => {
                        if k >= expected.len() || data > 0 {
                            return bad(format!("unexpected command {:?}", show(line)));
                        }
                        let (p, a) = &expected[k];
                        match parse_path(line, p) {
                            Some((addr, _)) if addr == *a => {}
                            _ => return bad(format!("expected {p}<{a}>, got {:?}", show(line))),
                        }
                        k += 1;
                    }
                    Ev::Data { .. } => {
                        if data != 1 {
                            return bad("message content without DATA".into());
                        }
                        msgs += 1;
                    }
                    e => return bad(format!("unexpected {e:?}")),
                }
            }
            if msgs > 1 {
                return bad("more than one message".into());
            }
            if accepted && !m.source_fails() && (k != expected.len() || data != 1 || msgs != 1) && !got.is_err() {
                return bad(format!("incomplete transaction: {k} of {} envelope commands, {data} DATA, {msgs} messages", expected.len()));
            }
            if !accepted && msgs != 0 {
                return bad("content was sent although the envelope was rejected".into());
            }
        }
        Op::Auth { .. } | Op::TryLogin { .. } => {
            let (m, c, steps) = match op {
                Op::Auth { mech, creds, steps } => (Some(*mech), creds, steps),
                Op::TryLogin { mechs, creds, steps } => (chosen(mechs, &s.caps), creds, steps),
                _ => unreachable!(),
            };
            let Some(m) = m else {
                if !evs.is_empty() {
                    return bad(format!("no acceptable mechanism, but the client sent {:?}", evs[0]));
                }
                return Ok(());
            };
            if want.auth_lines {
                check_auth_lines(i, m, c, steps, &evs)?;
            }
        }
        Op::StartTls(_) => {
            let ok = match evs.as_slice() {
                [] => !s.caps.starttls,
                [e] => s.caps.starttls && matches!(e, Ev::Cmd { line, .. } if line == b"STARTTLS"),
                _ => false,
            };
            if !ok {
                return bad(format!("STARTTLS advertised: {}, the client sent {evs:?}", s.caps.starttls));
            }
        }
        Op::Quit(_) => {
            let n = evs.iter().filter(|e| matches!(e, Ev::Cmd { line, .. } if line == b"QUIT")).count();
            if n != 1 || evs.len() != 1 {
                return bad(format!("expected exactly QUIT, got {evs:?}"));
            }
        }
    }
    Ok(())
}

fn check_auth_lines(i: usize, m: M, c: &Creds, steps: &[Reply], evs: &[&&Ev]) -> Result<(), String> {
    let (first, lines, exp, may_cancel) = expect_auth(m, c, steps);
    let bad = |m: String| Err(format!("op {i}: {m}"));
    match evs.first() {
        Some(Ev::Cmd { line, .. }) if line == first.as_bytes() => {}
        e => return bad(format!("expected {first:?}, got {e:?}")),
    }
    let got: Vec<&Vec<u8>> = evs[1..]
        .iter()
        .filter_map(|e| match e {
            Ev::AuthLine { line, .. } => Some(line),
            _ => None,
        })
        .collect();
    if got.len() != evs.len() - 1 {
        return bad("other commands during authentication".into());
    }
    let long = steps.iter().take_while(|r| r.code == 334).count() >= 10;
    for (k, g) in got.iter().enumerate() {
        if may_cancel && k + 1 == got.len() && g.as_slice() == b"*" {
            continue;
        }
        match lines.get(k) {
            Some(l) if l.as_bytes() == g.as_slice() => {}
            None if long => {
                // Beyond the bound every further line must still be a right answer.
                let ok = m == M::Login
                    && steps.get(k).map_or(false, |r| {
                        r.lines[0].split_whitespace().next().and_then(|w| login_answer(w, &c.user, &c.secret)).map_or(false, |a| a.as_bytes() == g.as_slice())
                    });
                if !ok {
                    return bad(format!("line {k} of the exchange: unexpected {:?}", show(g)));
                }
                if k > MAX_CHALLENGES {
                    return bad("the exchange is not bounded".into());
                }
            }
            w => return bad(format!("line {k} of the exchange: expected {w:?}, got {:?}", show(g))),
        }
    }
    if got.len() < lines.len() && !matches!(exp, Exp::Any) {
        return bad(format!("answered {} of {} challenges", got.len(), lines.len()));
    }
    Ok(())
}

/// No command before the previous reply was consumed, except inside one pipelined group where that is allowed.
pub fn check_order(t: &Trace, allowed: bool) -> Result<(), String> {
    for w in 1..t.log.len() {
        let (p, c) = (&t.log[w - 1], &t.log[w]);
        if t.seen[w] >= p.reply_end() {
            continue;
        }
        let grouped = match (p, c) {
            (Ev::Cmd { line: a, op: o1, .. }, Ev::Cmd { line: b, op: o2, .. }) => {
                let (a, b) = (verb(a), verb(b));
                o1 == o2 && (a == "MAIL" || a == "RCPT") && (b == "RCPT" || b == "DATA")
            }
            _ => false,
        };
        if !grouped {
            return Err(format!(
                "{:?} was sent after only {} of the {} reply bytes up to the end of the reply to {:?} had been read",
                brief(c),
                t.seen[w],
                p.reply_end(),
                brief(p)
            ));
        }
        if !allowed {
            return Err(format!("commands were pipelined although that is not allowed here: {:?} then {:?}", brief(p), brief(c)));
        }
    }
    Ok(())
}

fn brief(e: &Ev) -> String {
    match e {
        Ev::Greeting { .. } => "greeting".into(),
        Ev::Cmd { line, .. } => show(line),
        Ev::AuthLine { line, .. } => show(line),
        Ev::Data { .. } => "message content".into(),
    }
}

fn check_params(s: &Session, log: &[Ev]) -> Result<(), String> {
    let mut want: Vec<String> = vec![];
    if s.caps.eightbit {
        want.push("BODY=8BITMIME".into());
    }
    if s.caps.utf8 && s.cfg.utf8() {
        want.push("SMTPUTF8".into());
    }
    check_params_for(&want, log)
}

pub fn check_params_for(want: &[String], log: &[Ev]) -> Result<(), String> {
    for e in log {
        if let Ev::Cmd { line, .. } = e {
            match verb(line).as_str() {
                "MAIL" => {
                    let Some((_, mut p)) = parse_path(line, "MAIL FROM:") else {
                        return Err(format!("malformed {:?}", show(line)));
                    };
                    p.iter_mut().for_each(|x| x.make_ascii_uppercase());
                    p.sort();
                    let mut w = want.to_vec();
                    w.sort();
                    if p != w {
                        return Err(format!("MAIL parameters {p:?}, expected {w:?}"));
                    }
                }
                "RCPT" => {
                    let Some((_, p)) = parse_path(line, "RCPT TO:") else {
                        return Err(format!("malformed {:?}", show(line)));
                    };
                    if !p.is_empty() {
                        return Err(format!("RCPT parameters {p:?}"));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// Checks everything in `want` about a session without injected faults.
pub fn check_session(s: &Session, t: &Trace, want: Want) -> Result<(), String> {
    // Opening.
    let exp_open = if s.cfg.greeting() && !s.greeting.is_2xx() {
        rej(&s.greeting)
    } else if s.ehlo_code / 100 == 2 {
        Exp::Ok
    } else {
        Exp::Rej(s.ehlo_code, s.caps.lines.clone())
    };
    if let Res::Stalled(m) | Res::Panicked(m) = &t.open {
        return Err(format!("opening never completed: {:?} {m}", t.open));
    }
    if want.results && !matches(&exp_open, &t.open) {
        return Err(format!("opening: expected {exp_open:?}, got {:?}", t.open));
    }
    if exp_open != Exp::Ok || !t.open.is_ok() {
        if exp_open == Exp::Ok {
            return Err(format!("opening failed: {:?}", t.open));
        }
        return Ok(());
    }
    for (i, r) in t.ops.iter().enumerate() {
        if let Res::Stalled(m) | Res::Panicked(m) = r {
            return Err(format!("op {i} never completed: {r:?} {m}"));
        }
        if let Res::Other(m) = r {
            if m.starts_with("Build:") {
                return Err(format!("op {i}: {m}"));
            }
        }
    }
    let mut by_op: std::collections::HashMap<i32, Vec<&Ev>> = Default::default();
    for e in &t.log {
        by_op.entry(e.op()).or_default().push(e);
    }
    let mut closed = false;
    let mut expected_deliveries: Vec<(usize, &SendOp)> = vec![];
    for (i, op) in s.ops.iter().enumerate() {
        let Some(got) = t.ops.get(i) else {
            if closed {
                break;
            }
            // The session ends early only when the server closed.
            if op_closes(&s.ops[..i]) {
                break;
            }
            return Err(format!("the session ended before op {i}"));
        };
        let exp = expect_op(op, &s.caps);
        if want.results && !matches(&exp, got) {
            return Err(format!("op {i}: expected {exp:?}, got {got:?}"));
        }
        if let Op::Send(m) = op {
            if expect_send(m).1 {
                expected_deliveries.push((i, m));
            }
        }
        closed |= op_closes(std::slice::from_ref(op));
        if want.commands {
            let evs = by_op.remove(&(i as i32)).unwrap_or_default();
            check_commands(s, i, op, got, &evs, want)?;
        }
    }
    if want.results {
        check_after(t)?;
    }
    if want.deliveries {
        let mut n = 0;
        for e in &t.log {
            if let Ev::Data { op, from, to, content, code, .. } = e {
                let Some(Op::Send(m)) = s.ops.get(*op as usize) else {
                    return Err(format!("a message arrived during op {op}, which sends none"));
                };
                if !content_ok(&toks_bytes(&m.body), content) {
                    return Err(format!(
                        "op {op}: the server recovered {:?} ({} bytes) from body {:?} ({} bytes)",
                        show(content),
                        content.len(),
                        show(&toks_bytes(&m.body)),
                        toks_bytes(&m.body).len()
                    ));
                }
                if *code / 100 != 2 {
                    continue;
                }
                match expected_deliveries.get(n) {
                    Some((i, m)) if *i as i32 == *op => {
                        let wf = m.from.clone().unwrap_or_default();
                        let wt: Vec<String> = m.to.iter().map(|x| x.0.clone()).collect();
                        if *from != wf || *to != wt {
                            return Err(format!("op {op}: delivered with envelope {from:?} -> {to:?}, expected {wf:?} -> {wt:?}"));
                        }
                    }
                    _ => return Err(format!("op {op}: unexpected delivery")),
                }
                n += 1;
            }
        }
        if n != expected_deliveries.len() {
            return Err(format!("{n} deliveries, expected {}", expected_deliveries.len()));
        }
    }
    if want.params {
        check_params(s, &t.log)?;
    }
    if want.order {
        check_order(t, s.caps.pipelining && s.cfg.pipelining())?;
    }
    if want.clean_end && !closed {
        if t.in_data {
            return Err(format!("the server is left waiting for message content, having received {:?}", show(&t.partial)));
        }
        if !t.partial.is_empty() {
            return Err(format!("the server is left with an unfinished line {:?}", show(&t.partial)));
        }
    }
    Ok(())
}

/// What is tried on a connection that broke or was closed.
pub fn check_after(t: &Trace) -> Result<(), String> {
    for (r, io) in &t.after {
        match r {
            Res::Stalled(_) | Res::Panicked(_) => return Err(format!("on the dead connection an operation ended with {r:?}")),
            r if r.is_ok() && *io => return Err(format!("on the dead connection an operation succeeded: {r:?}")),
            Res::Transient(..) | Res::Permanent(..) => return Err(format!("on the dead connection an operation got the reply {r:?}")),
            _ => {}
        }
    }
    Ok(())
}

/// Whether the server closes the connection while serving these operations.
pub fn op_closes(ops: &[Op]) -> bool {
    ops.iter().any(|op| match op {
        Op::Send(m) => m.mail.close || m.to.iter().any(|x| x.1.close) || m.data.close || m.end.close,
        Op::Auth { steps, .. } | Op::TryLogin { steps, .. } => steps.iter().any(|r| r.close),
        Op::Quit(r) => r.close,
        // When it is not advertised, nothing is sent; but it is the last operation anyway.
        Op::StartTls(r) => r.close,
    })
}
