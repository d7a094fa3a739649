//! The serialisable vocabulary of generated cases. A case is a pure value: running it twice gives the same trace.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Reply {
    pub code: u16,
    pub lines: Vec<String>,
    /// Render an empty last line as "250\r\n" and not as "250 \r\n".
    pub bare: bool,
    /// The server closes the connection after this reply.
    pub close: bool,
}

impl Reply {
    pub fn new(code: u16, text: &str) -> Reply {
        Reply { code, lines: vec![text.to_string()], bare: false, close: false }
    }
    pub fn render(&self) -> Vec<u8> {
        let mut out = String::new();
        let n = self.lines.len();
        for (i, l) in self.lines.iter().enumerate() {
            if i + 1 < n {
                out.push_str(&format!("{:03}-{}\r\n", self.code, l));
            } else if l.is_empty() && self.bare {
                out.push_str(&format!("{:03}\r\n", self.code));
            } else {
                out.push_str(&format!("{:03} {}\r\n", self.code, l));
            }
        }
        out.into_bytes()
    }
    pub fn is_2xx(&self) -> bool {
        self.code / 100 == 2
    }
}

/// A piece of a body: a literal, a filler run, or a repeated pattern (keeps big cases readable).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Tok {
    Lit(Vec<u8>),
    Fill(u8, u32),
    Rep(Vec<u8>, u32),
}

pub fn toks_bytes(t: &[Tok]) -> Vec<u8> {
    let mut v = Vec::new();
    for t in t {
        match t {
            Tok::Lit(b) => v.extend_from_slice(b),
            Tok::Fill(b, n) => v.extend(std::iter::repeat(*b).take(*n as usize)),
            Tok::Rep(b, n) => (0..*n).for_each(|_| v.extend_from_slice(b)),
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Source {
    Bytes,
    /// A reader that returns at most `chunks[i]` bytes per read (0: not ready once), cyclically, and fails at `fail`.
    Reader { chunks: Vec<u16>, fail: Option<SrcFail> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SrcFail {
    pub at: u32,
    /// Which kind of error, an index into `ERRORS`.
    pub kind: u8,
    /// The reader fails once and then says that it has ended.
    pub once: bool,
}

/// Errors that are injected. `Interrupted` is not among them: retrying it is as good as reporting it.
pub const ERRORS: [std::io::ErrorKind; 10] = {
    use std::io::ErrorKind::*;
    [TimedOut, ConnectionReset, BrokenPipe, UnexpectedEof, Other, InvalidData, ConnectionAborted, NotConnected, WriteZero, PermissionDenied]
};

pub fn error_kind(k: u8) -> std::io::ErrorKind {
    ERRORS[k as usize % ERRORS.len()]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SendOp {
    pub from: Option<String>,
    pub to: Vec<(String, Reply)>,
    pub body: Vec<Tok>,
    pub source: Source,
    pub mail: Reply,
    pub data: Reply,
    pub end: Reply,
}

impl SendOp {
    pub fn source_fails(&self) -> bool {
        match &self.source {
            Source::Reader { fail: Some(f), .. } => (f.at as usize) <= toks_bytes(&self.body).len(),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum M {
    Plain,
    Login,
    Xoauth2,
}

impl M {
    pub const ALL: [M; 3] = [M::Plain, M::Login, M::Xoauth2];
    pub fn name(self) -> &'static str {
        match self {
            M::Plain => "PLAIN",
            M::Login => "LOGIN",
            M::Xoauth2 => "XOAUTH2",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Creds {
    pub user: String,
    pub secret: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Send(SendOp),
    Auth { mech: M, creds: Creds, steps: Vec<Reply> },
    TryLogin { mechs: Vec<M>, creds: Creds, steps: Vec<Reply> },
    Quit(Reply),
    /// Only as the last operation: it gives the transport away.
    StartTls(Reply),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Hello {
    Default,
    Domain(String),
    V4([u8; 4]),
    V6([u16; 8]),
}

/// Builder calls in the order they are made (later ones win).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Opt {
    Utf8(bool),
    Pipelining(bool),
    Hello(Hello),
    WithoutGreeting,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    pub opts: Vec<Opt>,
}

impl Cfg {
    pub fn utf8(&self) -> bool {
        self.opts.iter().rev().find_map(|o| if let Opt::Utf8(b) = o { Some(*b) } else { None }).unwrap_or(false)
    }
    pub fn pipelining(&self) -> bool {
        self.opts.iter().rev().find_map(|o| if let Opt::Pipelining(b) = o { Some(*b) } else { None }).unwrap_or(true)
    }
    pub fn greeting(&self) -> bool {
        !self.opts.iter().any(|o| matches!(o, Opt::WithoutGreeting))
    }
    pub fn hello(&self) -> Hello {
        self.opts
            .iter()
            .rev()
            .find_map(|o| if let Opt::Hello(h) = o { Some(h.clone()) } else { None })
            .unwrap_or(Hello::Default)
    }
}

/// What the server announces in its EHLO reply. `lines` is what is sent; the flags say what that means.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Caps {
    pub pipelining: bool,
    pub eightbit: bool,
    pub utf8: bool,
    pub starttls: bool,
    pub auth: Vec<M>,
    pub lines: Vec<String>,
}

/// Behaviour of the transport.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Net {
    /// Written bytes stay in the transport until flushed, or until more than this many are held.
    pub hold: Option<u32>,
    /// Bytes accepted per write, cyclic (0: not ready once).
    pub wchunks: Vec<u16>,
    /// Bytes delivered per read, cyclic (0: not ready once).
    pub rchunks: Vec<u16>,
    /// Flush not ready once, cyclic.
    pub fpend: Vec<bool>,
    /// Client to server and server to client windows in bytes.
    pub win: Option<(u32, u32)>,
}

impl Net {
    pub fn plain() -> Net {
        Net { hold: None, wchunks: vec![65535], rchunks: vec![65535], fpend: vec![false], win: None }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FaultKind {
    WriteErr,
    WriteZero,
    FlushErr,
    ReadErr,
    Eof,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fault {
    pub kind: FaultKind,
    /// Byte offset (writes, reads) or number of the flush.
    pub at: u64,
    /// Fails once only, later calls work again.
    pub once: bool,
    /// Which kind of error, an index into `ERRORS`.
    pub err: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Session {
    pub cfg: Cfg,
    pub greeting: Reply,
    /// Code of the EHLO reply; the lines are those of `caps`.
    pub ehlo_code: u16,
    pub caps: Caps,
    pub ops: Vec<Op>,
    pub net: Net,
    pub fault: Option<Fault>,
}

/// The observable result of one operation.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Res {
    Ok,
    OkReply(u16, Vec<String>),
    Transient(u16, Vec<String>),
    Permanent(u16, Vec<String>),
    Other(String),
    Stalled(String),
    Panicked(String),
}

impl Res {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok | Res::OkReply(..))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Transient(..) | Res::Permanent(..) | Res::Other(..))
    }
}
