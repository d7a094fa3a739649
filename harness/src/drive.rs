//! Runs generated sessions against the real library on an executor owned by the harness.
use crate::link::*;
use crate::server::*;
use crate::types::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::{Error, SmtpResult};
use async_smtp::extension::ClientId;
use async_smtp::response::Response;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const RUNTIME: &str = if cfg!(feature = "tokio-rt") { "tokio" } else { "async-std" };

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    /// Polls made so far, and after how many the caller gives up.
    static POLLS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let file = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("HARNESS_SHOW_PANICS").is_some() {
            eprintln!("panic at {file}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((file, msg)));
    }));
}

/// A panic that started in the harness itself is a harness error, never a verdict.
pub struct HarnessError(pub String);

/// Runs library code. `Err` is a panic of the library.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            if payload.is::<HarnessError>() {
                std::panic::resume_unwind(payload);
            }
            let (file, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let own = file.starts_with("src/") || file.contains("/verif/harness/");
            if own && !msg.starts_with("LIVELOCK") && !msg.starts_with("the library ") {
                std::panic::resume_unwind(Box::new(HarnessError(format!("{msg} at {file}"))));
            }
            Err(msg)
        }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// What an operation ends with that the caller has dropped before it was complete.
pub const ABANDONED: &str = "abandoned";

/// Runs the session; the caller drops the operation and the connection after that many polls. Also gives the number of
/// polls made.
pub fn run_session_for(s: &Session, limit: u64) -> (Trace, u64) {
    POLLS.set((0, limit));
    let t = run_session(s);
    let n = POLLS.get().0;
    POLLS.set((0, u64::MAX));
    (t, n)
}

pub enum Run<T> {
    Done(T),
    Stalled(String),
    Panicked(String),
}

/// Polls to completion. Every not-ready answer of the transport or source wakes at once unless it is final, so a
/// future that is pending without a wake-up can never complete.
pub fn exec<T>(link: &Rc<RefCell<Link>>, fut: impl Future<Output = T>) -> Run<T> {
    let mut fut = Box::pin(fut);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut polls = 0u64;
    loop {
        flag.0.store(false, Ordering::SeqCst);
        link.borrow_mut().blocked = None;
        polls += 1;
        let (done, limit) = POLLS.get();
        if done >= limit {
            if let Err(p) = guard(move || drop(fut)) {
                return Run::Panicked(p);
            }
            return Run::Stalled(ABANDONED.into());
        }
        POLLS.set((done + 1, limit));
        let r = guard(|| fut.as_mut().poll(&mut Context::from_waker(&waker)));
        match r {
            Err(p) => {
                // A panicked future must not be dropped outside of a guard.
                let _ = guard(move || drop(fut));
                return Run::Panicked(p);
            }
            Ok(Poll::Ready(v)) => return Run::Done(v),
            Ok(Poll::Pending) => {
                if flag.0.load(Ordering::SeqCst) {
                    if polls > 50_000_000 {
                        return Run::Stalled("woken forever without completing".into());
                    }
                    continue;
                }
                let why = link.borrow().blocked.unwrap_or("pending without a wake-up");
                return Run::Stalled(why.to_string());
            }
        }
    }
}

pub fn resp(r: &Response) -> (u16, Vec<String>) {
    let c = &r.code;
    (c.severity as u16 * 100 + c.category as u16 * 10 + c.detail as u16, r.message.clone())
}

pub fn err_res(e: &Error) -> Res {
    match e {
        Error::Transient(r) => {
            let (c, l) = resp(r);
            Res::Transient(c, l)
        }
        Error::Permanent(r) => {
            let (c, l) = resp(r);
            Res::Permanent(c, l)
        }
        Error::Io(e) => Res::Other(format!("Io:{:?}", e.kind())),
        Error::ResponseParsing(s) => Res::Other(format!("ResponseParsing:{s}")),
        Error::ChallengeParsing(_) => Res::Other("ChallengeParsing".into()),
        Error::Utf8Parsing(_) => Res::Other("Utf8Parsing".into()),
        Error::Client(s) => Res::Other(format!("Client:{s}")),
        Error::Resolution => Res::Other("Resolution".into()),
        Error::Parsing(k) => Res::Other(format!("Parsing:{k:?}")),
        #[allow(unreachable_patterns)]
        _ => Res::Other("Error".into()),
    }
}

fn res_reply(r: Run<SmtpResult>) -> Res {
    match r {
        Run::Done(Ok(r)) => {
            let (c, l) = resp(&r);
            Res::OkReply(c, l)
        }
        Run::Done(Err(e)) => err_res_shown(&e),
        Run::Stalled(s) => Res::Stalled(s),
        Run::Panicked(s) => Res::Panicked(s),
    }
}

fn res_unit(r: Run<Result<(), Error>>) -> Res {
    match r {
        Run::Done(Ok(())) => Res::Ok,
        Run::Done(Err(e)) => err_res_shown(&e),
        Run::Stalled(s) => Res::Stalled(s),
        Run::Panicked(s) => Res::Panicked(s),
    }
}

/// Also renders the error, which users do.
fn err_res_shown(e: &Error) -> Res {
    match guard(|| format!("{e} {e:?}")) {
        Ok(_) => err_res(e),
        Err(p) => Res::Panicked(p),
    }
}

pub fn mech(m: M) -> Mechanism {
    match m {
        M::Plain => Mechanism::Plain,
        M::Login => Mechanism::Login,
        M::Xoauth2 => Mechanism::Xoauth2,
    }
}

pub fn client_id(h: &Hello) -> ClientId {
    match h {
        Hello::Default => ClientId::default(),
        Hello::Domain(d) => ClientId::new(d.clone()),
        Hello::V4(a) => ClientId::Ipv4((*a).into()),
        Hello::V6(a) => ClientId::Ipv6((*a).into()),
    }
}

pub fn client(cfg: &Cfg) -> SmtpClient {
    let mut c = if cfg.opts.len() % 2 == 0 { SmtpClient::new() } else { SmtpClient::default() };
    for o in &cfg.opts {
        c = match o {
            Opt::Utf8(b) => c.smtp_utf8(*b),
            Opt::Pipelining(b) => c.pipelining(*b),
            Opt::Hello(h) => c.hello_name(client_id(h)),
            Opt::WithoutGreeting => c.without_greeting(),
        };
    }
    c
}

pub fn email(op: &SendOp) -> Result<SendableEmail, String> {
    let addr = |s: &String| EmailAddress::new(s.clone()).map_err(|e| format!("address {s:?} refused: {e}"));
    let from = match &op.from {
        None => None,
        Some(a) => Some(addr(a)?),
    };
    let mut to = vec![];
    for (a, _) in &op.to {
        to.push(addr(a)?);
    }
    let env = Envelope::new(from, to).map_err(|e| format!("envelope refused: {e}"))?;
    let body = toks_bytes(&op.body);
    Ok(match &op.source {
        Source::Bytes => SendableEmail::new(env, body),
        Source::Reader { chunks, fail } => {
            SendableEmail::new_with_reader(env, Box::new(Src::new(body, chunks, *fail)))
        }
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Trace {
    pub open: Res,
    pub ops: Vec<Res>,
    pub log: Vec<Ev>,
    pub wire: Vec<u8>,
    /// Command bytes or message bytes that the server received but that never came to an end.
    pub partial: Vec<u8>,
    pub in_data: bool,
    pub in_auth: bool,
    pub in_tx: bool,
    /// Op during which the injected fault fired (-1: while opening).
    pub fired_in: Option<i32>,
    /// Results of the operations tried after the connection broke or was closed, and whether they did any I/O.
    pub after: Vec<(Res, bool)>,
    /// consumed_at for the start of each log entry, and for the first byte written.
    #[serde(skip)]
    pub seen: Vec<u64>,
    #[serde(skip)]
    pub totals: (u64, u64, u64),
}

pub fn script_of(op: &Op) -> Script {
    match op {
        Op::Send(s) => Script::Send {
            mail: s.mail.clone(),
            rcpt: s.to.iter().map(|x| x.1.clone()).collect(),
            data: s.data.clone(),
            end: s.end.clone(),
        },
        Op::Auth { steps, .. } | Op::TryLogin { steps, .. } => Script::Auth { steps: steps.clone() },
        Op::Quit(r) => Script::Quit(r.clone()),
        Op::StartTls(r) => Script::StartTls { reply: r.clone(), tail: vec![] },
    }
}

pub fn run_op(link: &Rc<RefCell<Link>>, t: &mut SmtpTransport<Stream>, op: &Op) -> Res {
    match op {
        Op::Send(s) => match guard(|| email(s)) {
            Err(p) => Res::Panicked(p),
            Ok(Err(e)) => Res::Other(format!("Build:{e}")),
            Ok(Ok(m)) => res_reply(exec(link, t.send(m))),
        },
        Op::Auth { mech: m, creds, .. } => {
            let c = Credentials::new(creds.user.clone(), creds.secret.clone());
            res_reply(exec(link, t.auth(mech(*m), &c)))
        }
        Op::TryLogin { mechs, creds, .. } => {
            let c = Credentials::new(creds.user.clone(), creds.secret.clone());
            let ms: Vec<Mechanism> = mechs.iter().map(|m| mech(*m)).collect();
            res_unit(exec(link, t.try_login(&c, &ms)))
        }
        Op::Quit(_) => res_unit(exec(link, t.quit())),
        Op::StartTls(_) => unreachable!("needs the transport itself"),
    }
}

/// As above, but also for the operation that gives the transport away.
pub fn run_any(link: &Rc<RefCell<Link>>, t: &mut Option<SmtpTransport<Stream>>, op: &Op) -> Res {
    match op {
        Op::StartTls(_) => {
            let tr = t.take().expect("an operation after STARTTLS");
            res_unit(match exec(link, tr.starttls()) {
                Run::Done(r) => Run::Done(r.map(|_| ())),
                Run::Stalled(s) => Run::Stalled(s),
                Run::Panicked(s) => Run::Panicked(s),
            })
        }
        op => run_op(link, t.as_mut().expect("an operation after STARTTLS"), op),
    }
}

/// Reads the content of an email as any caller can: with buffers of these sizes, until its end or an error.
pub fn read_back(m: SendableEmail, sizes: &[u16]) -> Run<(Vec<u8>, Option<std::io::ErrorKind>)> {
    #[cfg(feature = "async-std-rt")]
    use futures::AsyncReadExt;
    #[cfg(feature = "tokio-rt")]
    use tokio::io::AsyncReadExt;
    let link = Link::new(&Net::plain(), Server::raw(vec![]), None);
    let sizes: Vec<usize> = sizes.iter().map(|n| (*n).max(1) as usize).collect();
    exec(&link, async move {
        let mut r = m.message();
        let mut out = vec![];
        for n in sizes.iter().cycle() {
            let mut buf = vec![0xaau8; *n];
            match r.read(&mut buf).await {
                Ok(0) => return (out, None),
                Ok(k) => out.extend_from_slice(&buf[..k]),
                Err(e) => return (out, Some(e.kind())),
            }
        }
        unreachable!()
    })
}

/// Everything `run_session` does for a session without faults, as one future.
async fn drive(link: Rc<RefCell<Link>>, s: Session) -> (Res, Vec<Res>) {
    fn unit(r: Result<(), Error>) -> Res {
        r.map_or_else(|e| err_res(&e), |_| Res::Ok)
    }
    fn reply(r: SmtpResult) -> Res {
        r.map_or_else(|e| err_res(&e), |r| {
            let (c, l) = resp(&r);
            Res::OkReply(c, l)
        })
    }
    let mut ops = vec![];
    let mut t = match SmtpTransport::new(client(&s.cfg), Stream::new(&link)).await {
        Ok(t) => Some(t),
        Err(e) => return (err_res(&e), ops),
    };
    for (i, op) in s.ops.iter().enumerate() {
        if link.borrow().fired {
            break;
        }
        link.borrow_mut().begin(i as i32, script_of(op));
        let Some(tr) = &mut t else { break };
        let r = match op {
            Op::Send(m) => match email(m) {
                Ok(m) => reply(tr.send(m).await),
                Err(e) => Res::Other(format!("Build:{e}")),
            },
            Op::Auth { mech: m, creds, .. } => reply(tr.auth(mech(*m), &Credentials::new(creds.user.clone(), creds.secret.clone())).await),
            Op::TryLogin { mechs, creds, .. } => {
                let ms: Vec<Mechanism> = mechs.iter().map(|m| mech(*m)).collect();
                unit(tr.try_login(&Credentials::new(creds.user.clone(), creds.secret.clone()), &ms).await)
            }
            Op::Quit(_) => unit(tr.quit().await),
            Op::StartTls(_) => unit(t.take().unwrap().starttls().await.map(|_| ())),
        };
        ops.push(r);
        if link.borrow().server.closed {
            break;
        }
    }
    (Res::Ok, ops)
}

type Fut = std::pin::Pin<Box<dyn Future<Output = (Res, Vec<Res>)>>>;
type Polled = Result<Poll<(Res, Vec<Res>)>, Result<String, String>>;

/// Lets a future with its link move between threads. Sound because of the strict hand-over in `Workers::poll`: only one
/// thread runs at any time, and the channels order what they do.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

/// Polls; `Err(Ok(message))` is a panic of the library, `Err(Err(message))` one of the harness.
fn poll_once(f: &mut Option<Fut>, flag: &Arc<Flag>) -> Polled {
    let waker = Waker::from(flag.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = guard(|| f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)));
        if !matches!(r, Ok(Poll::Pending)) {
            let f = f.take();
            let _ = guard(move || drop(f));
        }
        r
    }));
    match r {
        Ok(r) => r.map_err(Ok),
        Err(p) => Err(Err(p.downcast_ref::<HarnessError>().map_or("panic".into(), |e| e.0.clone()))),
    }
}

type Job = Moved<(Option<Fut>, Arc<Flag>)>;
type Answer = Moved<(Option<Fut>, Polled)>;

/// Threads that poll what they are given.
struct Workers(Vec<(std::sync::mpsc::Sender<Job>, std::sync::mpsc::Receiver<Answer>)>);

impl Workers {
    fn new(n: usize) -> Workers {
        Workers(
            (0..n)
                .map(|_| {
                    let (to, jobs) = std::sync::mpsc::channel::<Job>();
                    let (answer, from) = std::sync::mpsc::channel::<Answer>();
                    std::thread::spawn(move || {
                        for job in jobs {
                            let job = job;
                            let (mut f, flag) = job.0;
                            let r = poll_once(&mut f, &flag);
                            if answer.send(Moved((f, r))).is_err() {
                                break;
                            }
                        }
                    });
                    (to, from)
                })
                .collect(),
        )
    }

    fn poll(&self, w: usize, f: &mut Option<Fut>, flag: &Arc<Flag>) -> Polled {
        let w = &self.0[w % self.0.len()];
        w.0.send(Moved((f.take(), flag.clone()))).expect("worker");
        let a = w.1.recv().expect("worker");
        let (back, r) = a.0;
        *f = back;
        r
    }
}

thread_local! {
    static WORKERS: Workers = Workers::new(2);
}

/// Runs the sessions, polling whichever the schedule names next: on this thread, or, with `moving`, on whichever of three
/// threads the schedule names.
/// With `hold`, the first session is not polled any more after so many polls until the others have ended; if the second
/// component is set, it is dropped there.
pub fn run_together(sessions: &[Session], schedule: &[u8], moving: bool, hold: Option<(u16, bool)>) -> Vec<Trace> {
    let links: Vec<_> = sessions
        .iter()
        .map(|s| Link::new(&s.net, Server::new(if s.cfg.greeting() { Some(&s.greeting) } else { None }, ehlo_reply(s)), s.fault))
        .collect();
    let mut futs: Vec<Option<Fut>> = sessions.iter().zip(&links).map(|(s, l)| Some(Box::pin(drive(l.clone(), s.clone())) as Fut)).collect();
    let flags: Vec<_> = sessions.iter().map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let mut results: Vec<Option<(Res, Vec<Res>)>> = sessions.iter().map(|_| None).collect();
    let mut step = 0usize;
    let mut left = hold.map_or(usize::MAX, |h| h.0 as usize);
    let mut last = (0, 0);
    loop {
        // However often they are polled, futures that keep waking themselves without doing anything get nowhere.
        let done: u64 = links.iter().map(|l| l.borrow()).map(|l| l.wire.len() as u64 + l.consumed + l.flushes).sum();
        if done != last.1 {
            last = (step, done);
        } else if step - last.0 > 50_000 {
            break;
        }
        if left == 0 && hold.map_or(false, |h| h.1) {
            let f = futs[0].take();
            let _ = guard(move || drop(f));
        }
        let ready = |from: usize| (from..futs.len()).filter(|i| futs[*i].is_some() && flags[*i].0.load(Ordering::SeqCst)).collect::<Vec<_>>();
        let mut ready = ready((left == 0) as usize);
        if ready.is_empty() && left == 0 {
            left = usize::MAX;
            ready = futs.iter().take(1).filter(|f| f.is_some() && flags[0].0.load(Ordering::SeqCst)).map(|_| 0).collect();
        }
        if ready.is_empty() {
            break;
        }
        let (pick, th) = if schedule.is_empty() {
            (step, step % 3)
        } else {
            let b = schedule[step % schedule.len()] as usize;
            (b + step / schedule.len(), b / 16 % 3)
        };
        let i = ready[pick % ready.len()];
        step += 1;
        if i == 0 && left != usize::MAX {
            left -= 1;
        }
        flags[i].0.store(false, Ordering::SeqCst);
        let r = if moving && th > 0 { WORKERS.with(|w| w.poll(th, &mut futs[i], &flags[i])) } else { poll_once(&mut futs[i], &flags[i]) };
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(r)) => results[i] = Some(r),
            Err(Ok(p)) => results[i] = Some((Res::Panicked(p), vec![])),
            Err(Err(p)) => std::panic::resume_unwind(Box::new(HarnessError(p))),
        }
    }
    let _ = guard(move || drop(futs));
    links
        .iter()
        .zip(results)
        .map(|(l, r)| {
            let (open, ops) = r.unwrap_or((Res::Stalled("never completed".into()), vec![]));
            finish(l, open, ops, None)
        })
        .collect()
}

pub fn open(link: &Rc<RefCell<Link>>, cfg: &Cfg) -> Result<SmtpTransport<Stream>, Res> {
    let c = match guard(|| client(cfg)) {
        Ok(c) => c,
        Err(p) => return Err(Res::Panicked(p)),
    };
    match exec(link, SmtpTransport::new(c, Stream::new(link))) {
        Run::Done(Ok(t)) => Ok(t),
        Run::Done(Err(e)) => Err(err_res_shown(&e)),
        Run::Stalled(s) => Err(Res::Stalled(s)),
        Run::Panicked(s) => Err(Res::Panicked(s)),
    }
}

pub fn finish(link: &Rc<RefCell<Link>>, open: Res, ops: Vec<Res>, fired_in: Option<i32>) -> Trace {
    let l = link.borrow();
    let seen = l.server.log.iter().map(|e| l.consumed_at(e.start())).collect();
    Trace {
        open,
        ops,
        log: l.server.log.clone(),
        wire: l.wire.clone(),
        partial: [l.server.partial(), &l.server.tls_bytes[..]].concat(),
        in_data: l.server.in_data(),
        in_auth: l.server.in_auth(),
        in_tx: l.server.in_tx(),
        fired_in,
        after: vec![],
        seen,
        totals: (l.wire.len() as u64, l.consumed, l.flushes),
    }
}

pub fn ehlo_reply(s: &Session) -> Reply {
    Reply { code: s.ehlo_code, lines: s.caps.lines.clone(), bare: false, close: false }
}

pub fn run_session(s: &Session) -> Trace {
    let greeting = if s.cfg.greeting() { Some(&s.greeting) } else { None };
    let server = Server::new(greeting, ehlo_reply(s));
    let link = Link::new(&s.net, server, s.fault);
    let mut ops = vec![];
    let mut fired_in = None;
    let mut t = match open(&link, &s.cfg) {
        Ok(t) => Some(t),
        Err(r) => {
            if link.borrow().fired {
                fired_in = Some(-1);
            }
            return finish(&link, r, ops, fired_in);
        }
    };
    if link.borrow().fired {
        fired_in = Some(-1);
    } else {
        for (i, op) in s.ops.iter().enumerate() {
            link.borrow_mut().begin(i as i32, script_of(op));
            let r = run_any(&link, &mut t, op);
            let dead = matches!(r, Res::Stalled(_) | Res::Panicked(_));
            ops.push(r);
            if link.borrow().fired {
                fired_in = Some(i as i32);
            }
            if dead || fired_in.is_some() || link.borrow().server.closed {
                break;
            }
        }
    }
    // A broken or closed connection stays so.
    let broken = s.fault.map_or(false, |f| !f.once) && fired_in.is_some() || fired_in.is_none() && link.borrow().server.closed;
    let mut after = vec![];
    if broken && !ops.iter().any(|r| matches!(r, Res::Stalled(_) | Res::Panicked(_))) {
        let n = ops.len();
        for op in s.ops.iter().skip(n).chain(s.ops.first()).take(3) {
            if t.is_none() {
                break;
            }
            let before = link.borrow().calls;
            link.borrow_mut().begin(1000, Script::None);
            let r = run_any(&link, &mut t, op);
            let io = link.borrow().calls > before;
            after.push((r, io));
        }
    }
    let _ = guard(move || drop(t));
    if ops.last() == Some(&Res::Stalled(ABANDONED.into())) {
        link.borrow_mut().settle();
    }
    let mut t = finish(&link, Res::Ok, ops, fired_in);
    t.after = after;
    t
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // Formats what the library logs, so that code runs as it does for users with logging on.
        let s = r.args().to_string();
        std::hint::black_box(s.len());
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    let _ = log::set_boxed_logger(Box::new(Sink));
    log::set_max_level(log::LevelFilter::Trace);
}
