//! P09 capabilities, P14 addresses, P15 commands, P16 xtext, P21 reply codes.
use crate::dict;
use crate::drive::*;
use crate::gen::*;
use crate::link::Link;
use crate::oracle::*;
use crate::refs::*;
use crate::run::{Ctx, Info};
use crate::server::{Ev, Script, Server};
use crate::types::*;
use async_smtp::authentication::Credentials;
use async_smtp::commands::*;
use async_smtp::error::Error;
use async_smtp::extension::*;
use async_smtp::response::Response;
use async_smtp::util::XText;
use async_smtp::{EmailAddress, Envelope, SendableEmail};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

// ---------------------------------------------------------------- P09

fn recase(s: &str, bits: u32) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if bits >> (i % 32) & 1 == 1 { c.to_ascii_lowercase() } else { c })
        .collect()
}

fn ehlo_line() -> BoxedStrategy<String> {
    let word = || "[A-Z0-9][A-Z0-9-]{0,9}";
    let casing = || prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX), 1 => any::<u32>()];
    let keyword = || select(vec!["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"]);
    let mech = prop_oneof![
        4 => select(vec!["PLAIN", "LOGIN", "XOAUTH2"]).prop_map(String::from),
        2 => select(vec!["CRAM-MD5", "PLAIN-CLIENTTOKEN", "XLOGIN", "LOGIN2", "XPLAIN", "OAUTHBEARER", "XOAUTH", "XOAUTH22", "SCRAM-SHA-256-PLUS", "EXTERNAL", "AUTH", "STARTTLS", "PLAIN,LOGIN", "=LOGIN", "PLAIN="]).prop_map(String::from),
        1 => dict::text(|c| ('!'..='~').contains(&c), "[!-~]{0,4}").prop_filter("is a known mechanism in another case", |s| !M::ALL.iter().any(|m| m.name() != s && m.name().eq_ignore_ascii_case(s))),
    ];
    prop_oneof![
        6 => (keyword(), casing()).prop_map(|(k, b)| recase(k, b)),
        1 => (keyword(), casing(), word(), select(vec![" ", " ", "\t"])).prop_map(|(k, b, p, gap)| format!("{}{gap}{p}", recase(k, b))),
        4 => (prop_oneof![6 => vec(mech.clone(), 0..6), 1 => vec(mech, 6..40)], casing(), select(vec![" ", " ", "  ", "\t", " \t"]), any::<bool>()).prop_map(|(m, b, gap, trail)| {
            let mut s = recase("AUTH", b);
            for x in m {
                s.push_str(gap);
                s.push_str(&x);
            }
            if trail {
                s.push(' ');
            }
            s
        }),
        4 => (keyword(), 0u8..12, word()).prop_map(|(k, how, w)| match how {
            0 => format!("X{k}"),
            1 => format!("{k}X"),
            2 => format!("X-{k}"),
            3 => format!("{w} {k}"),
            4 => format!("SIZE {k}"),
            5 => format!("{k}={w}"),
            6 => format!("NO-{k}"),
            7 => k[..k.len() - 1].to_string(),
            8 => format!("{k},{k}"),
            9 => format!("HELP {w} {k} AUTH PLAIN"),
            10 => format!("\"{k}\""),
            _ => k[1..].to_string(),
        }),
        2 => select(vec!["AUTH=PLAIN LOGIN", "AUTHPLAIN", "AUTH-PLAIN LOGIN", "XAUTH PLAIN", "AUTHINFO LOGIN", "SASL PLAIN LOGIN", "PLAIN", "LOGIN", "XOAUTH2", "AUTH", "", "SIZE 35882577", "ENHANCEDSTATUSCODES", "250-PIPELINING", "8BITMIM", "7BITMIME", "8 BITMIME", "SMTP UTF8", "SMTPUTF-8", "START TLS", "STARTTLS2", "SMTPUTF88", "ETRN", "DSN", "CHUNKING", "BINARYMIME", "8BIT", "PIPE"]).prop_map(String::from),
        3 => dict::text(dict::printable, "[!-~ ]{0,6}").prop_filter("AUTH with a known mechanism in another case", |s| {
            !s.to_ascii_uppercase().contains("AUTH") || s.split_whitespace().all(|w| !M::ALL.iter().any(|m| m.name() != w && m.name().eq_ignore_ascii_case(w)))
        }),
        2 => (word(), vec("[!-~]{1,10}", 0..3)).prop_map(|(w, p)| {
            let mut s = format!("X{w}");
            for x in p {
                s.push(' ');
                s.push_str(&x);
            }
            s
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EhloCase {
    name: String,
    rest: Option<String>,
    lines: Vec<String>,
    code: u16,
}

impl EhloCase {
    fn all(&self) -> Vec<String> {
        let mut first = self.name.clone();
        if let Some(r) = &self.rest {
            first.push(' ');
            first.push_str(r);
        }
        let mut v = vec![first];
        v.extend(self.lines.iter().cloned());
        v
    }
}

fn ehlo_case() -> BoxedStrategy<EhloCase> {
    (
        prop_oneof![3 => "[a-z0-9][a-z0-9.-]{0,20}", 2 => select(vec!["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH", "pipelining", "starttls", "AUTH=PLAIN", "[127.0.0.1]"]).prop_map(String::from)],
        prop_oneof![2 => Just(None), 1 => "[!-~ ]{0,20}".prop_map(Some), 2 => select(vec!["PLAIN LOGIN", "LOGIN", "PIPELINING", "STARTTLS greets you", "Hello [127.0.0.1]"]).prop_map(|s| Some(s.to_string()))],
        prop_oneof![20 => vec(ehlo_line(), 0..8), 1 => vec(ehlo_line(), 8..60)],
        prop_oneof![6 => Just(250u16), 1 => code_2xx()],
    )
        .prop_map(|(name, rest, lines, code)| EhloCase { name, rest, lines, code })
        .boxed()
}

fn check_info(c: &EhloCase) -> Result<Info, String> {
    let lines = c.all();
    let text = Reply { code: c.code, lines: lines.clone(), bare: false, close: false }.render();
    let text = String::from_utf8(text).unwrap();
    let r = match guard(|| text.parse::<Response>())? {
        Ok(r) => r,
        Err(e) => return Err(format!("EHLO reply {text:?} refused: {e}")),
    };
    let info = match guard(|| ServerInfo::from_response(&r))? {
        Ok(i) => i,
        Err(e) => return Err(format!("EHLO reply {lines:?} refused: {e}")),
    };
    let (p, e, u, s, auth) = ref_caps(&lines);
    let mut want = HashSet::new();
    for (on, x) in [(p, Extension::Pipelining), (e, Extension::EightBitMime), (u, Extension::SmtpUtfEight), (s, Extension::StartTls)] {
        if on {
            want.insert(x);
        }
        if info.supports_feature(x) != on {
            return Err(format!("{lines:?}: supports {x} is {}", !on));
        }
    }
    for m in M::ALL {
        let on = auth.contains(&m);
        if on {
            want.insert(Extension::Authentication(mech(m)));
        }
        if info.supports_auth_mechanism(mech(m)) != on || info.supports_feature(Extension::Authentication(mech(m))) != on {
            return Err(format!("{lines:?}: supports AUTH {} is {}", m.name(), !on));
        }
    }
    if info.features != want {
        return Err(format!("{lines:?}: features {:?}, expected {want:?}", info.features));
    }
    if info.name != c.name {
        return Err(format!("{lines:?}: name {:?}", info.name));
    }
    let shown = guard(|| info.to_string())?;
    if !shown.contains(&c.name) {
        return Err(format!("shown as {shown:?}"));
    }
    let look = lines.iter().any(|l| {
        let u = l.to_ascii_uppercase();
        ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH", "PLAIN", "LOGIN"].iter().any(|k| u.contains(k) && u.split(' ').next() != Some(k))
    });
    Ok(Info::new(lines.len() > 1)
        .label(look, "a look-alike")
        .label(lines[1..].iter().any(|l| l.chars().any(|c| c.is_ascii_lowercase())), "lower case")
        .label(auth.len() > 1, "several mechanisms")
        .label(want.is_empty(), "nothing supported"))
}

/// The session behaves as the capabilities say.
fn check_behaviour(c: &EhloSession) -> Result<Info, String> {
    let lines = c.ehlo.all();
    let (pipelining, eightbit, utf8, starttls, auth) = ref_caps(&lines);
    let mut s = c.s.clone();
    s.ehlo_code = c.ehlo.code;
    s.caps = Caps { pipelining, eightbit, utf8, starttls, auth, lines: lines.clone() };
    let t = run_session(&s);
    check_session(&s, &t, ALL)?;
    // The same for STARTTLS.
    let server = Server::new(if s.cfg.greeting() { Some(&s.greeting) } else { None }, ehlo_reply(&s));
    let link = Link::new(&s.net, server, None);
    let t = open(&link, &s.cfg).map_err(|r| format!("opening: {r:?}"))?;
    let w = link.borrow().wire.len();
    link.borrow_mut().begin(0, Script::StartTls { reply: Reply::new(220, "go"), tail: vec![] });
    let r = match exec(&link, t.starttls()) {
        Run::Done(r) => r.is_ok(),
        Run::Stalled(m) | Run::Panicked(m) => return Err(format!("STARTTLS: {m}")),
    };
    let wrote = link.borrow().wire.len() - w;
    if r != starttls || (wrote > 0) != starttls {
        return Err(format!("{lines:?}: STARTTLS advertised: {starttls}, upgraded: {r}, {wrote} bytes written"));
    }
    Ok(Info::new(lines.len() > 1).execs(2))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EhloSession {
    ehlo: EhloCase,
    s: Session,
}

pub fn p09(ctx: &mut Ctx) {
    ctx.rule = "a case is an EHLO reply made of known keywords (any case, order, repetition, parameters), look-alikes and unknown words under a possibly keyword-like server name, given to the capability parser, or served in a session with emails, a login and STARTTLS; non-trivial: there is at least one line after the first".into();
    ctx.random("replies", 120_000, 2_000_000, ehlo_case, check_info);
    // Very many lines, the ones that matter anywhere, and very long lines.
    let strat = || {
        (ehlo_case(), prop_oneof![2 => log_size(100, 50_000), 1 => dict::near(60_000)], any::<bool>(), vec((ehlo_line(), any::<u32>()), 0..4), any::<u32>())
            .prop_map(|(mut c, n, long, some, at)| {
                if long {
                    let l = format!("X-LONG {}", "word ".repeat(n as usize));
                    let i = at as usize % (c.lines.len() + 1);
                    c.lines.insert(i, l);
                } else {
                    c.lines.extend((0..n).map(|i| format!("X-{i}")));
                }
                for (l, at) in some {
                    let i = at as usize % (c.lines.len() + 1);
                    c.lines.insert(i, l);
                }
                c
            })
            .boxed()
    };
    ctx.random("large", 240, 8_000, strat, check_info);
    // Each capability is shown as the line that announces it.
    let all = [Extension::Pipelining, Extension::EightBitMime, Extension::SmtpUtfEight, Extension::StartTls, Extension::Authentication(mech(M::Plain)), Extension::Authentication(mech(M::Login)), Extension::Authentication(mech(M::Xoauth2))];
    ctx.enumerate("shown", all.len(), |i| i, move |i: &usize| {
        let line = guard(|| all[*i].to_string())?;
        let info = format!("250-host\r\n250 {line}\r\n").parse::<Response>().map_err(|e| e.to_string()).and_then(|r| ServerInfo::from_response(&r).map_err(|e| e.to_string()))?;
        if info.features.len() != 1 || !info.features.contains(&all[*i]) {
            return Err(format!("{:?} is shown as {line:?}, which announces {:?}", all[*i], info.features));
        }
        Ok(Info::new(true))
    });
    let g = SendGen { max_rcpt: 3, rejected: 0, closing: false, failing_source: 0, small: true, many: true };
    let strat = move || {
        let ops = (send_op(g).prop_map(Op::Send), vec(any_mech(), 0..4), creds())
            .prop_map(|(m, mechs, creds)| {
                let steps = vec![Reply::new(535, "no")];
                vec![Op::TryLogin { mechs, creds, steps }, m]
            })
            .boxed();
        (ehlo_case(), session(ops)).prop_map(|(ehlo, s)| EhloSession { ehlo, s }).boxed()
    };
    ctx.random("sessions", 25_000, 800_000, strat, check_behaviour);
}

// ---------------------------------------------------------------- P14

fn check_address(s: &String) -> Result<Info, String> {
    let ok = address_ok(s);
    let a = guard(|| EmailAddress::new(s.clone()))?;
    let b = guard(|| s.parse::<EmailAddress>())?;
    for (how, r) in [("new", &a), ("parse", &b)] {
        match r {
            Ok(_) if !ok => return Err(format!("{how} accepts {s:?}")),
            Err(_) if ok => return Err(format!("{how} refuses {s:?}")),
            _ => {}
        }
    }
    if let (Ok(a), Ok(b)) = (a, b) {
        let os: &std::ffi::OsStr = a.as_ref();
        let st: &str = a.as_ref();
        if a != b || a.to_string() != *s || st != s || os.to_str() != Some(s) || a.clone() != a {
            return Err(format!("{s:?} is shown as {a} / {st:?}"));
        }
        if RcptCommand::new(a.clone(), vec![]).to_string() != format!("RCPT TO:<{s}>\r\n") {
            return Err(format!("{s:?} is rendered as {:?}", RcptCommand::new(a, vec![]).to_string()));
        }
    }
    Ok(Info::new(!s.is_empty()).label(ok, "acceptable").label(!ok, "not acceptable"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EnvCase {
    from: Option<String>,
    to: Vec<String>,
}

pub fn p14(ctx: &mut Ctx) {
    ctx.rule = "a case is a string as address (every Unicode scalar value in first, middle and last position; generated strings), an envelope, or a session whose wire is checked; non-trivial: the string is not empty, the envelope has a recipient".into();
    ctx.enumerate(
        "all-characters",
        3 * 0x110000,
        |i| {
            let c = char::from_u32((i / 3) as u32).unwrap_or('\u{fffd}');
            match i % 3 {
                0 => format!("{c}a@b.c"),
                1 => format!("a{c}@b.c"),
                _ => format!("a@b.c{c}"),
            }
        },
        check_address,
    );
    let strat = || {
        prop_oneof![
            3 => address(),
            3 => (address(), any::<u16>(), select(vec!["\r", "\n", "\r\n", "\0", " ", "\t", "<", ">", "\x7f", "\x0b", "\x0c", "\u{85}", "\u{2028}", "\u{e9}", "\x1b", "> SIZE=1", "\r\nRCPT TO:<x@y>", "\u{ff1c}"]))
                .prop_map(|(mut a, at, x)| {
                    let i = at as usize % (a.len() + 1);
                    a.insert_str(i, x);
                    a
                }),
            1 => "\\PC{0,20}",
            1 => dict::text(|_| true, "\\PC{0,3}"),
            1 => any::<String>(),
        ]
        .boxed()
    };
    ctx.random("addresses", 60_000, 2_000_000, strat, check_address);
    let strat = || {
        (long_size(), "[!-;=?-~]{1,3}", proptest::option::of((any::<u32>(), select(vec!["\r", "\n", "\r\n", "\0", " ", "<", ">", "\x7f", "\u{e9}", "\t"]))))
            .prop_map(|(n, s, x)| {
                let mut a = s.repeat((n as usize / s.len()).max(1));
                if let Some((at, x)) = x {
                    let i = at as usize % (a.len() + 1);
                    a.insert_str(i, x);
                }
                a
            })
            .boxed()
    };
    ctx.random("large", 1_500, 40_000, strat, check_address);
    let check_env = |c: &EnvCase| {
        let a = |s: &String| EmailAddress::new(s.clone()).map_err(|e| e.to_string());
        let from = match &c.from {
            None => None,
            Some(s) => Some(a(s)?),
        };
        let to: Vec<EmailAddress> = c.to.iter().map(a).collect::<Result<_, _>>()?;
        match guard(|| Envelope::new(from.clone(), to.clone()))? {
            Ok(_) if to.is_empty() => return Err("an envelope without recipients was accepted".into()),
            Err(e) if !to.is_empty() => return Err(format!("the envelope was refused: {e}")),
            Err(_) => {}
            Ok(e) => {
                if e.from() != from.as_ref() || e.to() != to.as_slice() {
                    return Err(format!("the envelope was kept as {e:?}"));
                }
                let m = SendableEmail::new(e.clone(), "x".to_string());
                if *m.envelope() != e {
                    return Err("the email has another envelope".into());
                }
            }
        }
        Ok(Info::new(!to.is_empty()).label(c.from.is_none(), "null sender"))
    };
    let strat = || (proptest::option::of(address()), vec(address(), 0..6)).prop_map(|(from, to)| EnvCase { from, to }).boxed();
    ctx.random("envelopes", 10_000, 300_000, strat, check_env);
    let strat = || (proptest::option::of(address()), long_size(), vec("[a-z]{1,4}@x", 1..5)).prop_map(|(from, n, a)| EnvCase { from, to: (0..n as usize).map(|i| a[i % a.len()].clone()).collect() }).boxed();
    ctx.random("large-envelopes", 60, 2_000, strat, check_env);
    let g = SendGen { max_rcpt: 6, rejected: 10, closing: false, failing_source: 0, small: true, many: true };
    let want = Want { commands: true, ..Want::default() };
    ctx.random("on-the-wire", 20_000, 600_000, move || session(vec(send_op(g).prop_map(Op::Send), 1..3).boxed()), move |s: &Session| {
        let t = run_session(s);
        check_session(s, &t, want)?;
        for e in &t.log {
            if let Ev::Cmd { line, .. } = e {
                if line.iter().any(|b| *b == b'\r' || *b == b'\n' || *b == 0) {
                    return Err(format!("the command {:?} is not one line", show_bytes(line)));
                }
            }
        }
        Ok(Info::new(true))
    });
}

// ---------------------------------------------------------------- P15

/// RFC 3461 xtext.
fn unxtext(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => {
                let h = b.get(i + 1..i + 3)?;
                if !h.iter().all(|c| c.is_ascii_digit() || (b'A'..=b'F').contains(c)) {
                    return None;
                }
                out.push(u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()?);
                i += 3;
            }
            b'=' => return None,
            c if c < b'!' || c == 0x7f => return None,
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(out).ok()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Param {
    SevenBit,
    EightBit,
    Utf8,
    Size(u64),
    Other(String, Option<String>),
}

impl Param {
    fn pair(&self) -> (String, Option<String>) {
        match self {
            Param::SevenBit => ("BODY".into(), Some("7BIT".into())),
            Param::EightBit => ("BODY".into(), Some("8BITMIME".into())),
            Param::Utf8 => ("SMTPUTF8".into(), None),
            Param::Size(n) => ("SIZE".into(), Some(n.to_string())),
            Param::Other(k, v) => (k.clone(), v.clone()),
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Cmd {
    Ehlo(Hello),
    StartTls,
    Mail(Option<String>, Vec<Param>),
    Rcpt(String, Vec<(String, Option<String>)>),
    Data,
    Quit,
    Noop,
    Rset,
    Help(Option<String>),
    Vrfy(String),
    Expn(String),
    Auth(M, Creds, Option<String>),
}

fn keyword() -> BoxedStrategy<String> {
    prop_oneof![4 => "[A-Z][A-Z0-9-]{0,8}", 1 => "[A-Za-z0-9][A-Za-z0-9-]{0,12}", 1 => select(vec!["RET", "ENVID", "NOTIFY", "ORCPT", "AUTH", "BODY", "SIZE"]).prop_map(String::from), 1 => dict::text(|c| c.is_ascii_alphanumeric(), "[A-Z0-9-]{0,3}")].boxed()
}

fn value() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[!-~]{1,20}",
        2 => "[ -~]{1,20}",
        2 => "[\\x00-\\x7f]{1,12}",
        1 => dict::text(|c| c.is_ascii(), "[ -~]{0,5}"),
        1 => (dict::near(600), "[!-~]").prop_map(|(n, s)| s.repeat(n as usize)),
        1 => select(vec!["+", "=", " ", "\r\n", "\r\nQUIT\r\n", "+2B", "++", "\t", "\x7f", "a+b=c d", "\0", "rfc822;a+b@c.d"]).prop_map(String::from),
    ]
    .boxed()
}

fn long_size() -> BoxedStrategy<u32> {
    prop_oneof![3 => log_size(200, 200_000), 1 => (select(vec![256u32, 512, 1000, 1024, 4096, 8192, 16384, 65536]), 0u32..6).prop_map(|(n, d)| n + 3 - d), 1 => dict::near(100_000)].boxed()
}

/// A command with a long field or many parameters.
fn large_cmd() -> BoxedStrategy<Cmd> {
    let pair = || (keyword(), proptest::option::weighted(0.7, value()));
    let text = || (long_size(), "[!-~]{1,3}").prop_map(|(n, s)| s.repeat((n as usize / s.len()).max(1)));
    let addr = || (long_size(), "[!-;=?-~]{1,3}").prop_map(|(n, s)| s.repeat((n as usize / s.len()).max(1)));
    prop_oneof![
        1 => (long_size(), "[a-z0-9-]{1,3}").prop_map(|(n, s)| Cmd::Ehlo(Hello::Domain(s.repeat(n as usize)))),
        1 => addr().prop_map(|a| Cmd::Mail(Some(a), vec![Param::EightBit])),
        1 => (addr(), pair()).prop_map(|(a, p)| Cmd::Rcpt(a, vec![p])),
        2 => (address(), (5u32..400).prop_flat_map(move |n| vec(pair(), n as usize))).prop_map(|(a, p)| Cmd::Rcpt(a, p)),
        1 => (address(), keyword(), text()).prop_map(|(a, k, v)| Cmd::Mail(Some(a), vec![Param::Size(1), Param::Other(k, Some(v)), Param::EightBit])),
        1 => text().prop_map(Cmd::Vrfy),
        1 => text().prop_map(Cmd::Expn),
        1 => text().prop_map(|t| Cmd::Help(Some(t))),
        1 => (any_mech(), text(), text(), proptest::option::of(select([&USER_PROMPTS[..], &PASS_PROMPTS[..]].concat()).prop_map(String::from))).prop_map(|(m, user, secret, p)| Cmd::Auth(m, Creds { user, secret }, p)),
    ]
    .boxed()
}

fn cmd() -> BoxedStrategy<Cmd> {
    let opt_val = || proptest::option::weighted(0.7, value());
    let param = prop_oneof![
        1 => Just(Param::SevenBit),
        1 => Just(Param::EightBit),
        1 => Just(Param::Utf8),
        2 => prop_oneof![Just(0u64), any::<u64>(), any::<u32>().prop_map(|x| x as u64), Just(u64::MAX)].prop_map(Param::Size),
        4 => (keyword(), opt_val()).prop_map(|(k, v)| Param::Other(k, v)),
    ];
    let arg = || {
        prop_oneof![
            4 => "[!-~]([ -~]{0,30}[!-~])?",
            1 => dict::text(|c| ('!'..='~').contains(&c), "[!-~]{1,3}"),
            1 => select(vec!["HELP", "QUIT", "DATA", "RSET", "NOOP", "EHLO", "AUTH LOGIN", "VRFY", "EXPN", "MAIL FROM:<a@b>", "RCPT TO:<a@b>", "STARTTLS", "<a@b>", "Full Name <a@b>", "user@example.org", "*", ".", "SMTPUTF8", "-", "a  b"]).prop_map(String::from),
        ]
        .prop_filter("empty", |a| !a.is_empty())
    };
    prop_oneof![
        2 => hello().prop_map(Cmd::Ehlo),
        4 => (proptest::option::of(address()), vec(param, 0..6)).prop_map(|(a, p)| Cmd::Mail(a, p)),
        3 => (address(), vec((keyword(), opt_val()), 0..5)).prop_map(|(a, p)| Cmd::Rcpt(a, p)),
        1 => select(vec![Cmd::StartTls, Cmd::Data, Cmd::Quit, Cmd::Noop, Cmd::Rset]),
        1 => proptest::option::of(arg()).prop_map(Cmd::Help),
        1 => arg().prop_map(Cmd::Vrfy),
        1 => arg().prop_map(Cmd::Expn),
        3 => (any_mech(), creds(), proptest::option::of(select([&USER_PROMPTS[..], &PASS_PROMPTS[..]].concat()).prop_map(String::from))).prop_map(|(m, c, p)| Cmd::Auth(m, c, p)),
    ]
    .boxed()
}

fn params_match(got: &[String], want: &[(String, Option<String>)]) -> Result<(), String> {
    let parsed: Option<Vec<(String, Option<String>)>> = got
        .iter()
        .map(|g| match g.split_once('=') {
            None => Some((g.clone(), None)),
            Some((k, v)) => unxtext(v).filter(|_| !v.is_empty()).map(|v| (k.to_string(), Some(v))),
        })
        .collect();
    match parsed {
        Some(p) if p == want => Ok(()),
        p => Err(format!("parameters {got:?} are read as {p:?}, expected {want:?}")),
    }
}

fn check_cmd(c: &Cmd) -> Result<Info, String> {
    let addr = |s: &String| EmailAddress::new(s.clone()).map_err(|e| format!("{s:?} refused: {e}"));
    let other = |p: &(String, Option<String>)| RcptParameter::Other { keyword: p.0.clone(), value: p.1.clone() };
    let text = match c {
        Cmd::Ehlo(h) => {
            let id = client_id(h);
            guard(|| EhloCommand::new(id).to_string())?
        }
        Cmd::StartTls => StarttlsCommand.to_string(),
        Cmd::Mail(a, p) => {
            let a = match a {
                None => None,
                Some(a) => Some(addr(a)?),
            };
            let p = p
                .iter()
                .map(|p| match p {
                    Param::SevenBit => MailParameter::Body(MailBodyParameter::SevenBit),
                    Param::EightBit => MailParameter::Body(MailBodyParameter::EightBitMime),
                    Param::Utf8 => MailParameter::SmtpUtfEight,
                    Param::Size(n) => MailParameter::Size(*n as usize),
                    Param::Other(k, v) => MailParameter::Other { keyword: k.clone(), value: v.clone() },
                })
                .collect();
            guard(|| MailCommand::new(a, p).to_string())?
        }
        Cmd::Rcpt(a, p) => {
            let a = addr(a)?;
            guard(|| RcptCommand::new(a, p.iter().map(other).collect()).to_string())?
        }
        Cmd::Data => DataCommand.to_string(),
        Cmd::Quit => QuitCommand.to_string(),
        Cmd::Noop => NoopCommand.to_string(),
        Cmd::Rset => RsetCommand.to_string(),
        Cmd::Help(a) => HelpCommand::new(a.clone()).to_string(),
        Cmd::Vrfy(a) => VrfyCommand::new(a.clone()).to_string(),
        Cmd::Expn(a) => ExpnCommand::new(a.clone()).to_string(),
        Cmd::Auth(m, cr, p) => {
            let creds = Credentials::new(cr.user.clone(), cr.secret.clone());
            let expect_err = *m != M::Login && p.is_some();
            match guard(|| AuthCommand::new(mech(*m), creds, p.clone()).map(|c| c.to_string()))? {
                Err(_) if expect_err => return Ok(Info::new(false).label(true, "refused")),
                Ok(t) if expect_err => return Err(format!("{} answers the challenge {p:?} with {t:?}", m.name())),
                Err(e) => return Err(format!("refused: {e}")),
                Ok(t) => t,
            }
        }
    };
    let bad = |m: String| Err(format!("{text:?}: {m}"));
    let Some(line) = text.strip_suffix("\r\n") else { return bad("not ended by CRLF".into()) };
    if line.chars().any(|c| c.is_ascii_control()) {
        return bad("control character in the line".into());
    }
    let simple = |kw: &str| -> Option<Option<String>> {
        if line == kw {
            Some(None)
        } else {
            line.strip_prefix(kw).and_then(|r| r.strip_prefix(' ')).map(|r| Some(r.to_string()))
        }
    };
    let plain = |kw: &str, arg: &Option<String>| if simple(kw).as_ref() == Some(arg) { Ok(()) } else { Err(format!("{text:?}: not {kw} with {arg:?}")) };
    match c {
        Cmd::Ehlo(h) => {
            use std::net::{Ipv4Addr, Ipv6Addr};
            let Some(Some(a)) = simple("EHLO") else { return bad("not EHLO".into()) };
            let lit = a.strip_prefix('[').and_then(|x| x.strip_suffix(']'));
            let v6 = lit.and_then(|x| x.strip_prefix("IPv6:"));
            let ok = match h {
                Hello::Default => a == "[127.0.0.1]",
                Hello::Domain(d) => a == *d,
                Hello::V4(x) => lit.and_then(|l| l.parse::<Ipv4Addr>().ok()) == Some((*x).into()),
                Hello::V6(x) => v6.and_then(|l| l.parse::<Ipv6Addr>().ok()) == Some((*x).into()),
            };
            if !ok {
                return bad(format!("not the identity {h:?}"));
            }
        }
        Cmd::StartTls => plain("STARTTLS", &None)?,
        Cmd::Data => plain("DATA", &None)?,
        Cmd::Quit => plain("QUIT", &None)?,
        Cmd::Noop => plain("NOOP", &None)?,
        Cmd::Rset => plain("RSET", &None)?,
        Cmd::Help(a) => plain("HELP", a)?,
        Cmd::Vrfy(a) => plain("VRFY", &Some(a.clone()))?,
        Cmd::Expn(a) => plain("EXPN", &Some(a.clone()))?,
        Cmd::Mail(a, p) => match crate::server::parse_path(line.as_bytes(), "MAIL FROM:") {
            Some((got, ps)) if got == a.clone().unwrap_or_default() => {
                params_match(&ps, &p.iter().map(|p| p.pair()).collect::<Vec<_>>()).map_err(|m| format!("{text:?}: {m}"))?
            }
            g => return bad(format!("read as {g:?}")),
        },
        Cmd::Rcpt(a, p) => match crate::server::parse_path(line.as_bytes(), "RCPT TO:") {
            Some((got, ps)) if got == *a => params_match(&ps, p).map_err(|m| format!("{text:?}: {m}"))?,
            g => return bad(format!("read as {g:?}")),
        },
        Cmd::Auth(m, cr, p) => {
            let decoded = |s: &str| unb64(s.as_bytes()).and_then(|b| String::from_utf8(b).ok());
            let ok = match (m, p) {
                (M::Login, None) => line == "AUTH LOGIN",
                (M::Login, Some(p)) => decoded(line).as_ref() == Some(if USER_PROMPTS.contains(&p.as_str()) { &cr.user } else { &cr.secret }),
                (M::Plain, _) => line.strip_prefix("AUTH PLAIN ").and_then(decoded) == Some(format!("\0{}\0{}", cr.user, cr.secret)),
                (M::Xoauth2, _) => line.strip_prefix("AUTH XOAUTH2 ").and_then(decoded) == Some(format!("user={}\x01auth=Bearer {}\x01\x01", cr.user, cr.secret)),
            };
            if !ok {
                return bad("not these credentials".into());
            }
        }
    }
    let fields = match c {
        Cmd::Mail(_, p) => !p.is_empty(),
        Cmd::Rcpt(_, p) => !p.is_empty(),
        Cmd::Ehlo(_) | Cmd::Auth(..) | Cmd::Vrfy(_) | Cmd::Expn(_) | Cmd::Help(Some(_)) => true,
        _ => false,
    };
    Ok(Info::new(fields)
        .label(matches!(c, Cmd::Mail(..) | Cmd::Rcpt(..)) && fields, "with parameters")
        .label(text.contains('+') && !matches!(c, Cmd::Auth(..)), "with an escape or a plus")
        .label(matches!(c, Cmd::Auth(..)), "AUTH")
        .label(matches!(c, Cmd::Ehlo(Hello::V6(_))), "IPv6"))
}

pub fn p15(ctx: &mut Ctx) {
    ctx.rule = "a case is a command with generated fields, rendered and parsed back by an independent parser; non-trivial: the command has an argument, credentials or parameters".into();
    ctx.random("commands", 300_000, 4_000_000, cmd, check_cmd);
    ctx.random("large", 1_500, 40_000, large_cmd, check_cmd);
    // Every visible character at the start, inside and at the end of an argument.
    ctx.enumerate(
        "all-characters-in-arguments",
        94 * 9,
        |i| {
            let c = (b'!' + (i / 9) as u8) as char;
            let a = [format!("{c}b"), format!("a{c}b"), format!("a {c}")][i / 3 % 3].clone();
            match i % 3 {
                0 => Cmd::Help(Some(a)),
                1 => Cmd::Vrfy(a),
                _ => Cmd::Expn(a),
            }
        },
        check_cmd,
    );
    // Every ASCII character as a parameter value, alone and between others.
    ctx.enumerate(
        "all-characters-in-values",
        128 * 4,
        |i| {
            let c = (i / 4) as u8 as char;
            let v = if i % 2 == 0 { c.to_string() } else { format!("A{c}1") };
            if i / 2 % 2 == 0 {
                Cmd::Rcpt("a@b".into(), vec![("ORCPT".into(), Some(v)), ("NOTIFY".into(), Some("NEVER".into()))])
            } else {
                Cmd::Mail(Some("a@b".into()), vec![Param::Other("ENVID".into(), Some(v)), Param::Size(5)])
            }
        },
        check_cmd,
    );
}

// ---------------------------------------------------------------- P16

fn needs_escape(c: char) -> bool {
    c < '!' || c == '+' || c == '=' || c == '\x7f'
}

fn check_xtext(s: &String) -> Result<Info, String> {
    let enc = guard(|| XText(s).to_string())?;
    let via = guard(|| MailParameter::Other { keyword: "K".into(), value: Some(s.clone()) }.to_string())?;
    let via2 = guard(|| RcptParameter::Other { keyword: "K".into(), value: Some(s.clone()) }.to_string())?;
    if via != format!("K={enc}") || via2 != via {
        return Err(format!("{s:?}: encoded as {enc:?}, but in parameters as {via:?} and {via2:?}"));
    }
    if unxtext(&enc).as_ref() != Some(s) {
        return Err(format!("{s:?} is encoded as {enc:?}, which decodes to {:?}", unxtext(&enc)));
    }
    if enc.chars().any(|c| c < '!' || c == '=' || c == '\x7f') {
        return Err(format!("{s:?} is encoded as {enc:?}, which is no xtext"));
    }
    let esc = s.chars().filter(|c| needs_escape(*c)).count();
    if esc == 0 && enc != *s {
        return Err(format!("{s:?} needs no escape, but is encoded as {enc:?}"));
    }
    if enc.chars().count() != s.chars().count() + 2 * esc {
        return Err(format!("{s:?} is encoded as {enc:?}: too many escapes"));
    }
    Ok(Info::new(esc > 0).label(!s.is_ascii(), "beyond ASCII").label(s.chars().any(|c| c < '\x10'), "below 16"))
}

pub fn p16(ctx: &mut Ctx) {
    ctx.rule = "a case is a parameter value: all strings of one and two ASCII characters, all triples that matter, and generated ones; non-trivial: some character needs an escape".into();
    ctx.enumerate(
        "all-one-and-two-characters",
        129 * 129,
        |i| [i / 129, i % 129].iter().filter(|x| **x < 128).map(|x| *x as u8 as char).collect::<String>(),
        check_xtext,
    );
    const AL: [char; 14] = ['+', '=', ' ', '\0', '\x7f', '\r', '\n', 'A', '2', 'B', '!', '~', '\u{e9}', '\u{1f600}'];
    ctx.enumerate(
        "all-four-characters-of-some",
        AL.len().pow(4),
        |i| (0..4).map(|k| AL[i / AL.len().pow(k) % AL.len()]).collect::<String>(),
        check_xtext,
    );
    let strat = || {
        prop_oneof![
            3 => value(),
            2 => "[+=A-F0-9 ]{0,12}",
            2 => "[\\x00-\\x20+=\\x7f]{0,12}",
            1 => "[ -~\u{a1}-\u{17f}\u{4e00}-\u{4e40}\u{1f600}-\u{1f610}+=]{0,20}",
            1 => "[+=a]{50,400}",
            1 => vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        ]
        .boxed()
    };
    ctx.enumerate(
        "every-character",
        0x110,
        |i| (i as u32 * 0x1000..(i as u32 + 1) * 0x1000).filter_map(char::from_u32).collect::<String>(),
        check_xtext,
    );
    ctx.random("values", 400_000, 3_000_000, strat, check_xtext);
    // Dense and sparse escapes in long values.
    let strat = || {
        (long_size(), select(vec!["+", "a", "=", "ab+", "\x7f", " ", "+2B", "\u{e9}", "\r\n"]), "[ -~]{0,9}", "[ -~]{0,9}")
            .prop_map(|(n, p, a, b)| format!("{a}{}{b}", p.repeat(n as usize / p.len() + 1)))
            .boxed()
    };
    ctx.random("large", 600, 20_000, strat, check_xtext);
}

// ---------------------------------------------------------------- P21

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CodeCase {
    digits: String,
    /// All 65536 numbers are compared with the code.
    all_numbers: bool,
    lines: Vec<String>,
}

fn check_code(c: &CodeCase) -> Result<Info, String> {
    let d: Vec<u16> = c.digits.bytes().map(|b| (b - b'0') as u16).collect();
    let valid = (2..=5).contains(&d[0]) && d[1] <= 5;
    let n = d[0] * 100 + d[1] * 10 + d[2];
    let mut text = String::new();
    for (i, l) in c.lines.iter().enumerate() {
        text.push_str(&format!("{}{}{l}\r\n", c.digits, if i + 1 < c.lines.len() { '-' } else { ' ' }));
    }
    let r = match (guard(|| text.parse::<Response>())?, valid) {
        (Err(_), false) => return Ok(Info::new(true).label(true, "refused code")),
        (Ok(r), false) => return Err(format!("{text:?} was read as {r:?}")),
        (Err(e), true) => return Err(format!("{text:?} was refused: {e}")),
        (Ok(r), true) => r,
    };
    if resp(&r) != (n, c.lines.clone()) {
        return Err(format!("{text:?} was read as {r:?}"));
    }
    if r.code.to_string() != c.digits {
        return Err(format!("code {} is shown as {}", c.digits, r.code));
    }
    if !r.has_code(n) {
        return Err(format!("code {n} does not match itself"));
    }
    let others: Box<dyn Iterator<Item = u16>> =
        if c.all_numbers { Box::new(0..=u16::MAX) } else { Box::new([n / 10, n % 100, n + 1, n - 1, n.wrapping_mul(10), 0, 2, 25, 250, 334, 354].into_iter()) };
    for x in others {
        if r.has_code(x) != (x == n) {
            return Err(format!("code {n} matches {x}"));
        }
    }
    if r.is_positive() != (d[0] <= 3) {
        return Err(format!("code {n} is positive: {}", r.is_positive()));
    }
    if Response::new(r.code, r.message.clone()) != r {
        return Err("a response built from its parts differs".into());
    }
    let e = guard(|| Error::from(r.clone()))?;
    let kept = match (&e, d[0]) {
        (Error::Transient(x), 4) | (Error::Permanent(x), 5) => *x == r,
        (Error::Transient(_) | Error::Permanent(_), _) => false,
        (_, 4 | 5) => false,
        _ => true,
    };
    if !kept {
        return Err(format!("code {n} becomes {e:?}"));
    }
    if d[0] >= 4 {
        let shown = guard(|| e.to_string())?;
        let mut rest = shown.as_str();
        for l in &c.lines {
            match rest.find(l.as_str()) {
                Some(i) => rest = &rest[i + l.len()..],
                None => return Err(format!("{:?} is shown as {shown:?}", c.lines)),
            }
        }
    }
    Ok(Info::new(true)
        .label(d[0] >= 4, "an error")
        .label(c.lines.len() > 1, "several lines"))
}

pub fn p21(ctx: &mut Ctx) {
    ctx.rule = "a case is a three digit code with text: all 1000 codes are enumerated (the 240 valid ones against all 65536 numbers), codes with generated texts follow; every case is non-trivial".into();
    ctx.enumerate(
        "all-codes",
        1000,
        |i| CodeCase { digits: format!("{i:03}"), all_numbers: true, lines: vec!["some text".into(), "more".into()] },
        check_code,
    );
    let strat = || ((2u16..6, 0u16..6, 0u16..10), lines()).prop_map(|((x, y, z), lines)| CodeCase { digits: format!("{x}{y}{z}"), all_numbers: false, lines }).boxed();
    ctx.random("texts", 200_000, 2_000_000, strat, check_code);
    // A response can also be built without any text.
    ctx.enumerate("no-text-at-all", 240, |i| format!("{}{}{}", 2 + i / 60, i / 10 % 6, i % 10), |d: &String| {
        let r: Response = match guard(|| format!("{d} x\r\n").parse::<Response>())? {
            Ok(r) => r,
            Err(e) => return Err(format!("{d} refused: {e}")),
        };
        let r = Response::new(r.code, vec![]);
        if r.first_line().is_some() || r.first_word().is_some() {
            return Err("text out of nowhere".into());
        }
        let e = guard(|| Error::from(r.clone()))?;
        let s = guard(|| e.to_string())?;
        if s.is_empty() {
            return Err("the error is shown as nothing".into());
        }
        guard(|| ServerInfo::from_response(&r).is_ok())?;
        Ok(Info::new(true))
    });
}
