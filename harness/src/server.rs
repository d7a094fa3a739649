//! A strict model of an RFC 5321 server that follows a script of replies and logs everything it is told.
use crate::types::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ev {
    Greeting { reply_end: u64 },
    /// A command line (without CRLF), the offset of its first byte, and the offset of the end of its reply.
    Cmd { op: i32, line: Vec<u8>, start: u64, reply_end: u64, code: u16, bad: Option<String> },
    /// A line of an authentication exchange after the AUTH command itself.
    AuthLine { op: i32, line: Vec<u8>, start: u64, reply_end: u64, code: u16 },
    /// A finished message as the server understood it.
    Data { op: i32, from: String, to: Vec<String>, content: Vec<u8>, start: u64, reply_end: u64, code: u16 },
}

impl Ev {
    pub fn op(&self) -> i32 {
        match self {
            Ev::Greeting { .. } => -1,
            Ev::Cmd { op, .. } | Ev::AuthLine { op, .. } | Ev::Data { op, .. } => *op,
        }
    }
    pub fn reply_end(&self) -> u64 {
        match self {
            Ev::Greeting { reply_end }
            | Ev::Cmd { reply_end, .. }
            | Ev::AuthLine { reply_end, .. }
            | Ev::Data { reply_end, .. } => *reply_end,
        }
    }
    pub fn start(&self) -> u64 {
        match self {
            Ev::Greeting { .. } => 0,
            Ev::Cmd { start, .. } | Ev::AuthLine { start, .. } | Ev::Data { start, .. } => *start,
        }
    }
}

#[derive(Clone, Debug)]
enum Mode {
    Cmd,
    Data,
    Auth,
    /// After a positive reply to STARTTLS: bytes are not SMTP any more.
    Tls,
    /// The server ignores everything (raw byte stream cases, closed connections).
    Deaf,
}

#[derive(Clone, Debug, Default)]
pub enum Script {
    #[default]
    None,
    Send { mail: Reply, rcpt: Vec<Reply>, data: Reply, end: Reply },
    Auth { steps: Vec<Reply> },
    Quit(Reply),
    StartTls { reply: Reply, tail: Vec<u8> },
}

pub struct Server {
    mode: Mode,
    buf: Vec<u8>,
    line_start: u64,
    data_line_start: usize,
    pos: u64,
    pub out: Vec<u8>,
    out_total: u64,
    pub closed: bool,
    pub log: Vec<Ev>,
    pub tls_bytes: Vec<u8>,
    pub op: i32,
    script: Script,
    rcpt_no: usize,
    auth_no: usize,
    tx: Option<(String, Vec<String>)>,
    ehlo: Reply,
    pub ehlos: usize,
}

fn kw(line: &[u8]) -> String {
    let s = String::from_utf8_lossy(line);
    s.split(|c| c == ' ' || c == ':').next().unwrap_or("").to_ascii_uppercase()
}

/// "MAIL FROM:<addr> a b" gives (addr, ["a", "b"]).
pub fn parse_path(line: &[u8], prefix: &str) -> Option<(String, Vec<String>)> {
    let s = std::str::from_utf8(line).ok()?;
    if !s.is_char_boundary(prefix.len()) || s.len() < prefix.len() || !s[..prefix.len()].eq_ignore_ascii_case(prefix) {
        return None;
    }
    let rest = &s[prefix.len()..];
    let rest = rest.strip_prefix('<')?;
    let (addr, params) = rest.split_once('>')?;
    if params.is_empty() {
        return Some((addr.to_string(), vec![]));
    }
    let params = params.strip_prefix(' ')?;
    Some((addr.to_string(), params.split(' ').map(|s| s.to_string()).collect()))
}

impl Server {
    pub fn new(greeting: Option<&Reply>, ehlo: Reply) -> Server {
        let mut s = Server {
            mode: Mode::Cmd,
            buf: vec![],
            line_start: 0,
            data_line_start: 0,
            pos: 0,
            out: vec![],
            out_total: 0,
            closed: false,
            log: vec![],
            tls_bytes: vec![],
            op: -1,
            script: Script::None,
            rcpt_no: 0,
            auth_no: 0,
            tx: None,
            ehlo,
            ehlos: 0,
        };
        if let Some(g) = greeting {
            let e = s.say(g);
            s.log.push(Ev::Greeting { reply_end: e });
        }
        s
    }

    /// A peer that sends these bytes, closes, and ignores what it receives.
    pub fn raw(bytes: Vec<u8>) -> Server {
        let mut s = Server::new(None, Reply::new(250, "x"));
        s.out_total = bytes.len() as u64;
        s.out = bytes;
        s.mode = Mode::Deaf;
        s.closed = true;
        s
    }

    pub fn begin(&mut self, op: i32, script: Script) {
        self.op = op;
        self.script = script;
        self.rcpt_no = 0;
        self.auth_no = 0;
    }

    pub fn in_data(&self) -> bool {
        matches!(self.mode, Mode::Data)
    }
    pub fn in_auth(&self) -> bool {
        matches!(self.mode, Mode::Auth)
    }
    pub fn in_tx(&self) -> bool {
        self.tx.is_some()
    }
    pub fn partial(&self) -> &[u8] {
        &self.buf
    }

    fn say(&mut self, r: &Reply) -> u64 {
        let b = r.render();
        self.out_total += b.len() as u64;
        self.out.extend_from_slice(&b);
        if r.close {
            self.closed = true;
            self.mode = Mode::Deaf;
        }
        self.out_total
    }

    pub fn feed(&mut self, b: u8) {
        self.pos += 1;
        match self.mode {
            Mode::Deaf => {}
            Mode::Tls => self.tls_bytes.push(b),
            Mode::Data => {
                self.buf.push(b);
                if b == b'\n' && self.buf.ends_with(b"\r\n") {
                    if &self.buf[self.data_line_start..] == b".\r\n" {
                        self.buf.truncate(self.data_line_start);
                        self.finish_data();
                    } else {
                        self.data_line_start = self.buf.len();
                    }
                }
            }
            Mode::Cmd | Mode::Auth => {
                if self.buf.is_empty() {
                    self.line_start = self.pos - 1;
                }
                self.buf.push(b);
                if self.buf.ends_with(b"\r\n") {
                    let mut line = std::mem::take(&mut self.buf);
                    line.truncate(line.len() - 2);
                    if matches!(self.mode, Mode::Auth) {
                        self.auth_line(line);
                    } else {
                        self.command(line);
                    }
                }
            }
        }
    }

    fn finish_data(&mut self) {
        let raw = std::mem::take(&mut self.buf);
        let mut content = Vec::with_capacity(raw.len());
        let mut bol = true;
        for (i, &b) in raw.iter().enumerate() {
            if bol && b == b'.' {
                bol = false;
                continue;
            }
            content.push(b);
            bol = b == b'\n' && i > 0 && raw[i - 1] == b'\r';
        }
        self.mode = Mode::Cmd;
        let (from, to) = self.tx.take().unwrap_or_default();
        let reply = match &self.script {
            Script::Send { end, .. } => end.clone(),
            _ => Reply::new(250, "queued"),
        };
        let start = self.line_start;
        let reply_end = self.say(&reply);
        self.log.push(Ev::Data { op: self.op, from, to, content, start, reply_end, code: reply.code });
    }

    fn next_auth(&mut self) -> Reply {
        let r = match &self.script {
            Script::Auth { steps } => steps.get(self.auth_no).cloned(),
            _ => None,
        };
        self.auth_no += 1;
        r.unwrap_or_else(|| Reply::new(535, "no more steps"))
    }

    fn auth_line(&mut self, line: Vec<u8>) {
        let reply = if line == b"*" {
            Reply::new(501, "cancelled")
        } else {
            self.next_auth()
        };
        if reply.code != 334 {
            self.mode = Mode::Cmd;
        }
        let start = self.line_start;
        let reply_end = self.say(&reply);
        self.log.push(Ev::AuthLine { op: self.op, line, start, reply_end, code: reply.code });
    }

    fn command(&mut self, line: Vec<u8>) {
        let mut bad: Option<String> = None;
        if line.iter().any(|b| *b < 0x20 || *b == 0x7f) {
            bad = Some("control character in command line".into());
        }
        let k = kw(&line);
        let mut next = None;
        let reply = match k.as_str() {
            "EHLO" => {
                self.tx = None;
                self.ehlos += 1;
                self.ehlo.clone()
            }
            "MAIL" => match parse_path(&line, "MAIL FROM:") {
                None => {
                    bad = Some("malformed MAIL".into());
                    Reply::new(501, "syntax")
                }
                Some((a, _)) => {
                    if self.tx.is_some() {
                        bad = Some("nested MAIL".into());
                        Reply::new(503, "nested MAIL command")
                    } else {
                        let r = match &self.script {
                            Script::Send { mail, .. } => mail.clone(),
                            _ => {
                                bad = Some("unexpected MAIL".into());
                                Reply::new(250, "ok")
                            }
                        };
                        if r.is_2xx() {
                            self.tx = Some((a, vec![]));
                        }
                        r
                    }
                }
            },
            "RCPT" => match parse_path(&line, "RCPT TO:") {
                None => {
                    bad = Some("malformed RCPT".into());
                    Reply::new(501, "syntax")
                }
                Some((a, _)) => {
                    let scripted = match &self.script {
                        Script::Send { rcpt, .. } => rcpt.get(self.rcpt_no).cloned(),
                        _ => None,
                    };
                    self.rcpt_no += 1;
                    match &mut self.tx {
                        None => Reply::new(503, "need MAIL before RCPT"),
                        Some((_, to)) => {
                            let r = scripted.unwrap_or_else(|| {
                                bad = Some("unexpected RCPT".into());
                                Reply::new(250, "ok")
                            });
                            if r.is_2xx() {
                                to.push(a);
                            }
                            r
                        }
                    }
                }
            },
            "DATA" => {
                if line.len() != 4 {
                    bad = Some("malformed DATA".into());
                }
                match &self.tx {
                    None => Reply::new(503, "need MAIL before DATA"),
                    Some((_, to)) if to.is_empty() => Reply::new(554, "no valid recipients"),
                    Some(_) => {
                        let r = match &self.script {
                            Script::Send { data, .. } => data.clone(),
                            _ => {
                                bad = Some("unexpected DATA".into());
                                Reply::new(354, "go ahead")
                            }
                        };
                        if r.code == 354 {
                            next = Some(Mode::Data);
                        }
                        r
                    }
                }
            }
            "RSET" => {
                if line.len() != 4 {
                    bad = Some("malformed RSET".into());
                }
                self.tx = None;
                Reply::new(250, "reset")
            }
            "NOOP" => Reply::new(250, "noop"),
            "QUIT" => {
                let r = match &self.script {
                    Script::Quit(r) => r.clone(),
                    _ => {
                        bad = Some("unexpected QUIT".into());
                        Reply::new(221, "bye")
                    }
                };
                if line.len() != 4 {
                    bad = Some("malformed QUIT".into());
                }
                r
            }
            "STARTTLS" => {
                let r = match &self.script {
                    Script::StartTls { reply, .. } => reply.clone(),
                    _ => {
                        bad = Some("unexpected STARTTLS".into());
                        Reply::new(454, "not now")
                    }
                };
                if line.len() != 8 {
                    bad = Some("malformed STARTTLS".into());
                }
                if r.is_2xx() {
                    next = Some(Mode::Tls);
                }
                r
            }
            "AUTH" => {
                if self.tx.is_some() {
                    bad = Some("AUTH during a mail transaction".into());
                    Reply::new(503, "AUTH not permitted during a mail transaction")
                } else {
                    if !matches!(self.script, Script::Auth { .. }) {
                        bad = Some("unexpected AUTH".into());
                    }
                    let r = self.next_auth();
                    if r.code == 334 {
                        next = Some(Mode::Auth);
                    }
                    r
                }
            }
            _ => {
                bad = Some("unknown command".into());
                Reply::new(500, "unknown command")
            }
        };
        let start = self.line_start;
        let reply_end = self.say(&reply);
        self.log.push(Ev::Cmd { op: self.op, line, start, reply_end, code: reply.code, bad });
        if let Some(m) = next {
            if !self.closed {
                if matches!(m, Mode::Data) {
                    self.data_line_start = 0;
                    self.line_start = self.pos;
                }
                if matches!(m, Mode::Tls) {
                    if let Script::StartTls { tail, .. } = &self.script {
                        self.out_total += tail.len() as u64;
                        self.out.extend_from_slice(tail);
                    }
                }
                self.mode = m;
            }
        }
    }
}
