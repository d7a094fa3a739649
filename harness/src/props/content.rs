//! P01 message transparency, P19 message sources.
use crate::drive::run_session;
use crate::gen::*;
use crate::oracle::*;
use crate::run::{Ctx, Info};
use crate::server::Ev;
use crate::types::*;
use proptest::prelude::*;

pub fn simple_caps() -> Caps {
    Caps { pipelining: false, eightbit: true, utf8: false, starttls: false, auth: vec![], lines: vec!["mx".into(), "8BITMIME".into()] }
}

pub fn simple_session(ops: Vec<Op>) -> Session {
    Session {
        cfg: Cfg { opts: vec![] },
        greeting: Reply::new(220, "hi"),
        ehlo_code: 250,
        caps: simple_caps(),
        ops,
        net: Net::plain(),
        fault: None,
    }
}

pub fn simple_send(body: Vec<Tok>) -> SendOp {
    SendOp {
        from: Some("a@b.c".into()),
        to: vec![("d@e.f".into(), Reply::new(250, "ok"))],
        body,
        source: Source::Bytes,
        mail: Reply::new(250, "ok"),
        data: Reply::new(354, "go"),
        end: Reply::new(250, "queued"),
    }
}

const P01: Want = Want {
    results: false,
    deliveries: true,
    commands: true,
    strict_commands: false,
    params: false,
    order: false,
    auth_lines: false,
    clean_end: true,
};

/// The body exercises the encoder: a dot at the start of a line, a stray CR or LF, or an unusual end.
fn tricky(b: &[u8]) -> bool {
    b.is_empty()
        || b[0] == b'.'
        || !b.ends_with(b"\r\n")
        || b.windows(3).any(|w| w == b"\r\n.")
        || (0..b.len()).any(|i| (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) || (b[i] == b'\n' && (i == 0 || b[i - 1] != b'\r')))
}

pub fn p01(ctx: &mut Ctx) {
    ctx.rule = "a case is one session delivering 1-3 emails to a strict model server; non-trivial: some body starts a line with a dot, holds a stray CR or LF, is empty, or does not end in CRLF".into();
    const AL: [u8; 4] = [b'.', b'\r', b'\n', b'a'];
    let maxlen = if ctx.thorough { 9 } else { 7 };
    let total: usize = (0..=maxlen).map(|k| 4usize.pow(k)).sum();
    ctx.enumerate(
        "all-short-bodies",
        total,
        |mut i| {
            let mut len = 0u32;
            while i >= 4usize.pow(len) {
                i -= 4usize.pow(len);
                len += 1;
            }
            let mut v = vec![];
            for _ in 0..len {
                v.push(AL[i % 4]);
                i /= 4;
            }
            v.reverse();
            v
        },
        |b: &Vec<u8>| {
            let s = simple_session(vec![Op::Send(simple_send(vec![Tok::Lit(b.clone())]))]);
            check_session(&s, &run_session(&s), P01)?;
            Ok(Info::new(tricky(b)))
        },
    );
    let g = SendGen { max_rcpt: 2, rejected: 12, closing: false, failing_source: 6, small: false, many: false };
    ctx.random(
        "sessions",
        60_000,
        2_000_000,
        || session(history(g, 3, false)),
        |s: &Session| {
            check_session(s, &run_session(s), P01)?;
            let bodies: Vec<Vec<u8>> =
                s.ops.iter().filter_map(|o| if let Op::Send(m) = o { Some(toks_bytes(&m.body)) } else { None }).collect();
            Ok(Info::new(bodies.iter().any(|b| tricky(b)))
                .label(bodies.iter().any(|b| b.is_empty()), "empty body")
                .label(bodies.iter().any(|b| b.first() == Some(&b'.')), "leading dot")
                .label(bodies.iter().any(|b| b.windows(3).any(|w| w == b"\r\n.")), "dot after CRLF")
                .label(bodies.iter().any(|b| b.windows(4).any(|w| w == b"\r\r\n.")), "dot after CR CRLF")
                .label(bodies.iter().any(|b| b.ends_with(b"\r\n")), "ends in CRLF")
                .label(bodies.iter().any(|b| b.len() > 4000), "larger than 4000 bytes"))
        },
    );
    ctx.random("large", 64, 4_000, || large_session(8), |s: &Session| {
        check_session(s, &run_session(s), P01)?;
        let Op::Send(m) = &s.ops[0] else { unreachable!() };
        let b = toks_bytes(&m.body);
        Ok(Info::new(tricky(&b)).label(b.len() > 1 << 20, "larger than 1 MiB"))
    });
}

/// A large email and then small ones, over a transport that splits little.
fn large_session(reader: u32) -> BoxedStrategy<Session> {
    let g = SendGen { max_rcpt: 2, rejected: 0, closing: false, failing_source: 0, small: true, many: false };
    (session(proptest::collection::vec(send_op(g).prop_map(Op::Send), 1..4).boxed()), large_body(), prop_oneof![10 => Just(None), reader => large_chunks().prop_map(Some)], large_chunks(), any::<bool>())
        .prop_map(|(mut s, body, chunks, w, plain)| {
            if let Op::Send(m) = &mut s.ops[0] {
                m.body = body;
                m.source = chunks.map_or(Source::Bytes, |chunks| Source::Reader { chunks, fail: None });
            }
            s.net = if plain { Net::plain() } else { Net { wchunks: w, ..s.net } };
            if s.net.win.is_some() {
                s.net.win = Some((70_000, 70_000));
            }
            s
        })
        .boxed()
}

#[derive(Clone, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct SrcCase {
    s: Session,
    chunks: Vec<u16>,
    fail: Option<SrcFail>,
    after: SendOp,
    /// Buffer sizes for reading the content directly.
    sizes: Vec<u16>,
}

pub fn p19(ctx: &mut Ctx) {
    ctx.rule = "a case sends the same email once from bytes and once from a reader (wire bytes and results must agree), and once from a reader that fails, followed by another email; non-trivial: the reader splits the body, is not ready at times, or fails".into();
    let g = SendGen { max_rcpt: 3, rejected: 15, closing: false, failing_source: 0, small: false, many: true };
    let g2 = SendGen { rejected: 0, small: true, ..g };
    let strat = move || {
        (
            session(send_op(g).prop_map(|s| vec![Op::Send(s)]).boxed()),
            chunks(),
            proptest::option::weighted(0.6, src_fail()),
            send_op(g2),
            chunks(),
        )
            .prop_map(|(s, chunks, fail, after, mut sizes)| {
                if let Op::Send(m) = &s.ops[0] {
                    // Large contents are not read byte by byte.
                    if toks_bytes(&m.body).len() > 5000 {
                        sizes.push(5000);
                    }
                }
                SrcCase { s, chunks, fail, after, sizes }
            })
            .boxed()
    };
    ctx.random("sources", 40_000, 1_200_000, strat, check_source);
    let strat = move || {
        (large_session(0), large_chunks(), proptest::option::weighted(0.6, src_fail()), send_op(g2), large_chunks())
            .prop_map(|(mut s, chunks, fail, after, sizes)| {
                s.ops.truncate(1);
                SrcCase { s, chunks, fail, after, sizes: sizes.into_iter().map(|n| n.max(5000)).collect() }
            })
            .boxed()
    };
    ctx.random("large", 24, 1_500, strat, check_source);
}

fn check_source(c: &SrcCase) -> Result<Info, String> {
    let with = |src: Source, more: bool| {
        let mut s = c.s.clone();
        if let Op::Send(m) = &mut s.ops[0] {
            m.source = src;
        }
        if more {
            s.ops.push(Op::Send(c.after.clone()));
        }
        s
    };
    let Op::Send(m) = &c.s.ops[0] else { unreachable!() };
    let body = toks_bytes(&m.body);
    let a = with(Source::Bytes, true);
    let ta = run_session(&a);
    let b = with(Source::Reader { chunks: c.chunks.clone(), fail: None }, true);
    let tb = run_session(&b);
    check_session(&b, &tb, Want { results: true, deliveries: true, commands: true, clean_end: true, ..Want::default() })?;
    if ta.wire != tb.wire || ta.open != tb.open || ta.ops != tb.ops {
        return Err(format!(
            "bytes and reader differ: results {:?} and {:?}, wire {:?} and {:?}",
            ta.ops,
            tb.ops,
            show_bytes(&ta.wire),
            show_bytes(&tb.wire)
        ));
    }
    let mut n = 2;
    if let Some(f) = c.fail {
        let f = SrcFail { at: f.at % (body.len() as u32 + 1), ..f };
        let d = with(Source::Reader { chunks: c.chunks.clone(), fail: Some(f) }, true);
        let td = run_session(&d);
        n += 1;
        check_session(&d, &td, Want { results: true, deliveries: true, commands: true, clean_end: true, ..Want::default() })?;
        if td.log.iter().any(|e| matches!(e, Ev::Data { op: 0, .. })) {
            return Err(format!("the source failed at byte {} of {}, but the server got a finished message", f.at, body.len()));
        }
        if first_rejection(m).is_none() {
            let kind = error_kind(f.kind);
            match &td.ops[0] {
                Res::Other(k) if *k == format!("Io:{kind:?}") => {}
                r => return Err(format!("the source failed with {kind:?}, sending gave {r:?}")),
            }
        }
    }
    // The content as a caller reads it from the email.
    for src in [Source::Bytes, Source::Reader { chunks: c.chunks.clone(), fail: c.fail.map(|f| SrcFail { at: f.at % (body.len() as u32 + 1), ..f }) }] {
        let (upto, exp) = match &src {
            Source::Reader { fail: Some(f), .. } => (f.at as usize, Some(error_kind(f.kind))),
            _ => (body.len(), None),
        };
        let m = crate::drive::guard(|| crate::drive::email(&SendOp { source: src.clone(), ..m.clone() }))??;
        match crate::drive::read_back(m, &c.sizes) {
            crate::drive::Run::Done((got, e)) if got == body[..upto] && e == exp => {}
            crate::drive::Run::Done((got, e)) => {
                return Err(format!("{} bytes and then {e:?} were read from the email, expected {upto} and {exp:?}", got.len()))
            }
            crate::drive::Run::Stalled(e) | crate::drive::Run::Panicked(e) => return Err(format!("reading the email: {e}")),
        }
    }
    Ok(Info::new(c.fail.is_some() || (body.len() > 1 && c.chunks != [65535]))
        .label(c.fail.is_some(), "source fails")
        .label(c.fail.map_or(false, |f| f.once), "source fails once and then ends")
        .label(body.len() > 8192, "larger than 8192 bytes")
        .label(c.chunks.contains(&0), "not ready at times")
        .execs(n))
}
