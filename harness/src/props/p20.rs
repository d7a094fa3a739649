//! P20: the same cases under both runtimes, in lockstep with a process built for the other one.
//! P23: the same cases with and without logging.
use super::raw::*;
use crate::drive::*;
use crate::gen::*;
use crate::oracle::show_bytes;
use crate::run::{Ctx, Info};
use crate::types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Case {
    S(Session),
    R(RawCase),
}

pub fn run(c: &Case) -> Trace {
    match c {
        Case::S(s) => run_session(s),
        Case::R(r) => run_raw(r).0,
    }
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    /// A process of the other build, and one of this build.
    static PEERS: RefCell<[Option<Peer>; 2]> = const { RefCell::new([None, None]) };
}

/// What a peer is asked: the log level (0: off, 5: everything) and the case.
pub type Request = (u8, Case);

pub const LEVELS: [log::LevelFilter; 6] =
    [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];

/// Runs the case in a process of its own, of the other build or of this one. Panics of this function are harness errors.
fn elsewhere(other: bool, level: u8, c: &Case) -> Trace {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p[other as usize].get_or_insert_with(|| {
            let path = if other { std::env::var("HARNESS_PEER").expect("HARNESS_PEER is not set").into() } else { std::env::current_exe().expect("own path") };
            let mut child = Command::new(path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot start a peer");
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            Peer { child, to, from }
        });
        let mut line = serde_json::to_string(&(level, c)).unwrap();
        line.push('\n');
        peer.to.write_all(line.as_bytes()).expect("the peer is gone");
        peer.to.flush().expect("the peer is gone");
        let mut answer = String::new();
        peer.from.read_line(&mut answer).expect("the peer is gone");
        serde_json::from_str(&answer).expect("the peer gave no answer")
    })
}

/// Compares two traces of a case, made under the conditions named.
fn compare(a: &Trace, x: &str, b: &Trace, y: &str) -> Result<(), String> {
    if a.open != b.open {
        return Err(format!("opening: {:?} {x}, {:?} {y}", a.open, b.open));
    }
    if a.after != b.after {
        return Err(format!("on a dead connection: {:?} {x}, {:?} {y}", a.after, b.after));
    }
    if a.ops != b.ops {
        return Err(format!("results: {:?} {x}, {:?} {y}", a.ops, b.ops));
    }
    if a.wire != b.wire {
        return Err(format!("bytes written: {:?} {x}, {:?} {y}", show_bytes(&a.wire), show_bytes(&b.wire)));
    }
    if a.log != b.log || a.partial != b.partial || a.fired_in != b.fired_in {
        return Err(format!("the server saw different sessions {x} and {y}"));
    }
    Ok(())
}

fn any_case() -> BoxedStrategy<Case> {
    let g = SendGen { max_rcpt: 4, rejected: 25, closing: true, failing_source: 15, small: false, many: true };
    prop_oneof![
        4 => session(history(g, 3, true)).prop_map(Case::S),
        2 => (session(history(SendGen { small: true, ..g }, 2, true)), proptest::sample::select(vec![FaultKind::WriteErr, FaultKind::WriteZero, FaultKind::FlushErr, FaultKind::ReadErr, FaultKind::Eof]), any::<u16>(), any::<bool>(), 0..ERRORS.len() as u8)
            .prop_map(|(mut s, kind, at, once, err)| {
                let at = if kind == FaultKind::FlushErr { at as u64 % 40 } else { at as u64 % 700 };
                s.fault = Some(Fault { kind, at, once, err });
                Case::S(s)
            }),
        3 => raw_case().prop_map(Case::R),
    ]
    .boxed()
}

pub fn p20(ctx: &mut Ctx) {
    ctx.rule = "a case is a session, a session with one injected failure, or a hostile byte stream, run in lockstep under both runtime builds; results, bytes written and what the server saw must agree; non-trivial: an email with a reader, a rejection, a failure or a non-default transport".into();
    ctx.random("pairs", 60_000, 700_000, any_case, |c: &Case| {
        compare(&run(c), "under tokio", &elsewhere(true, 5, c), "under async-std")?;
        let nt = match c {
            Case::R(_) => true,
            Case::S(s) => {
                s.fault.is_some()
                    || s.net != Net::plain()
                    || s.ops.iter().any(|o| matches!(o, Op::Send(m) if m.source != Source::Bytes || crate::oracle::first_rejection(m).is_some()))
            }
        };
        Ok(Info::new(nt)
            .label(matches!(c, Case::R(_)), "hostile stream")
            .label(matches!(c, Case::S(s) if s.fault.is_some()), "injected failure")
            .execs(2))
    });
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Logged {
    level: u8,
    case: Case,
}

pub fn p23(ctx: &mut Ctx) {
    ctx.rule = "a case is a log level and a session, a session with one injected failure, or a hostile byte stream, run with every message logged and, in another process of the same build, with that level; results, bytes written and what the server saw must agree; non-trivial: the level suppresses messages of the library and the case has an operation".into();
    let strat = || (prop_oneof![3 => Just(0u8), 1 => 1u8..6], any_case()).prop_map(|(level, case)| Logged { level, case }).boxed();
    ctx.random("levels", 40_000, 600_000, strat, |c: &Logged| {
        let level = LEVELS[c.level as usize % 6];
        compare(&run(&c.case), "with everything logged", &elsewhere(false, c.level, &c.case), &format!("with log level {level}"))?;
        let has_op = match &c.case {
            Case::R(_) => true,
            Case::S(s) => !s.ops.is_empty(),
        };
        Ok(Info::new(c.level < 4 && has_op)
            .label(c.level == 0, "logging off")
            .label(matches!(&c.case, Case::R(_)), "hostile stream")
            .label(matches!(&c.case, Case::S(s) if s.fault.is_some()), "injected failure")
            .execs(2))
    });
}
