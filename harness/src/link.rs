//! The transport handed to the library: an in-memory link to the model server whose buffering, chunking, readiness,
//! windows and faults are all dictated by the case. There is no clock and no thread: a read that can never be
//! satisfied is a definite stall.
use crate::server::{Script, Server};
use crate::types::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub struct Link {
    pub server: Server,
    net: Net,
    fault: Option<Fault>,
    pub fired: bool,
    held: Vec<u8>,
    c2s: VecDeque<u8>,
    s2c: VecDeque<u8>,
    rbuf: Vec<u8>,
    rpos: usize,
    pub wire: Vec<u8>,
    /// (offset of the first byte of an accepted write, bytes consumed by the client at that time)
    marks: Vec<(u64, u64)>,
    pub consumed: u64,
    delivered: u64,
    wi: usize,
    ri: usize,
    fi: usize,
    pub flushes: u64,
    eofs: u64,
    pub calls: u64,
    pub blocked: Option<&'static str>,
}

fn plan(list: &[u16], i: &mut usize) -> usize {
    if list.is_empty() || list.iter().all(|x| *x == 0) {
        return 1;
    }
    let v = list[*i % list.len()] as usize;
    *i += 1;
    v
}

const CALL_LIMIT: u64 = 20_000_000;

impl Link {
    pub fn new(net: &Net, server: Server, fault: Option<Fault>) -> Rc<RefCell<Link>> {
        Rc::new(RefCell::new(Link {
            server,
            net: net.clone(),
            fault,
            fired: false,
            held: vec![],
            c2s: VecDeque::new(),
            s2c: VecDeque::new(),
            rbuf: vec![],
            rpos: 0,
            wire: vec![],
            marks: vec![],
            consumed: 0,
            delivered: 0,
            wi: 0,
            ri: 0,
            fi: 0,
            flushes: 0,
            eofs: 0,
            calls: 0,
            blocked: None,
        }))
    }

    pub fn begin(&mut self, op: i32, script: Script) {
        self.server.begin(op, script);
    }

    /// Bytes the client had consumed when it wrote the byte at this offset.
    pub fn consumed_at(&self, off: u64) -> u64 {
        let i = self.marks.partition_point(|m| m.0 <= off);
        if i == 0 {
            0
        } else {
            self.marks[i - 1].1
        }
    }

    /// What the client has not consumed yet.
    pub fn unread(&mut self) -> Vec<u8> {
        self.pump();
        let mut v = self.rbuf[self.rpos..].to_vec();
        v.extend(self.s2c.iter().copied());
        v.extend_from_slice(&self.server.out);
        v
    }

    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > CALL_LIMIT {
            panic!("LIVELOCK: more than {} transport calls in one case", CALL_LIMIT);
        }
    }

    fn pump(&mut self) {
        let swin = self.net.win.map(|w| w.1.max(1) as usize).unwrap_or(usize::MAX);
        loop {
            let room = swin.saturating_sub(self.s2c.len());
            let n = room.min(self.server.out.len());
            self.s2c.extend(self.server.out.drain(..n));
            if !self.server.out.is_empty() {
                return; // the server is blocked writing and does not read
            }
            match self.c2s.pop_front() {
                Some(b) => self.server.feed(b),
                None => return,
            }
        }
    }

    fn push_c2s(&mut self, data: &[u8]) -> usize {
        self.pump();
        let mut done = 0;
        while done < data.len() {
            let room = match self.net.win {
                None => usize::MAX,
                Some(w) => (w.0.max(1) as usize).saturating_sub(self.c2s.len()),
            };
            if room == 0 {
                break;
            }
            let n = room.min(data.len() - done);
            self.c2s.extend(data[done..done + n].iter().copied());
            done += n;
            self.pump();
        }
        done
    }

    fn drain_held(&mut self) -> bool {
        let held = std::mem::take(&mut self.held);
        let n = self.push_c2s(&held);
        self.held = held[n..].to_vec();
        self.held.is_empty()
    }

    /// What the transport still held arrives.
    pub fn settle(&mut self) {
        self.net.win = None;
        self.drain_held();
        self.pump();
    }

    fn write_fault(&mut self, want: usize) -> Result<usize, Poll<io::Result<usize>>> {
        if let Some(f) = self.fault {
            if matches!(f.kind, FaultKind::WriteErr | FaultKind::WriteZero) {
                let off = self.wire.len() as u64;
                if self.fired && f.once {
                    return Ok(want);
                }
                if off >= f.at || self.fired {
                    self.fired = true;
                    return Err(Poll::Ready(if f.kind == FaultKind::WriteErr {
                        Err(io::Error::new(error_kind(f.err), "injected write error"))
                    } else {
                        Ok(0)
                    }));
                }
                return Ok(want.min((f.at - off) as usize));
            }
            if f.kind == FaultKind::FlushErr && self.fired && !f.once {
                return Err(Poll::Ready(Err(io::Error::new(error_kind(f.err), "injected write error"))));
            }
        }
        Ok(want)
    }

    fn do_write(&mut self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        self.tick();
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let want = match self.write_fault(data.len()) {
            Ok(n) => n,
            Err(p) => return p,
        };
        let c = plan(&self.net.wchunks, &mut self.wi);
        if c == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let want = want.min(c);
        let off = self.wire.len() as u64;
        let consumed = self.consumed;
        let n;
        if let Some(cap) = self.net.hold {
            if self.held.len() > cap as usize && !self.drain_held() && self.held.len() > cap as usize {
                self.blocked = Some("write: the peer does not read because its replies are not being read");
                return Poll::Pending;
            }
            self.held.extend_from_slice(&data[..want]);
            n = want;
            self.wire.extend_from_slice(&data[..n]);
            self.marks.push((off, consumed));
        } else {
            // Marks come first: the server may look at them while it processes the bytes.
            self.marks.push((off, consumed));
            n = self.push_c2s(&data[..want]);
            if n == 0 {
                self.marks.pop();
                self.blocked = Some("write: the peer does not read because its replies are not being read");
                return Poll::Pending;
            }
            self.wire.extend_from_slice(&data[..n]);
        }
        Poll::Ready(Ok(n))
    }

    fn do_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.tick();
        if !self.net.fpend.is_empty() {
            let p = self.net.fpend[self.fi % self.net.fpend.len()];
            self.fi += 1;
            if p && !self.net.fpend.iter().all(|x| *x) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if let Some(f) = self.fault {
            match f.kind {
                FaultKind::FlushErr => {
                    let n = self.flushes;
                    if (n == f.at && !self.fired) || (self.fired && !f.once) {
                        self.fired = true;
                        self.flushes += 1;
                        return Poll::Ready(Err(io::Error::new(error_kind(f.err), "injected flush error")));
                    }
                }
                FaultKind::WriteErr | FaultKind::WriteZero if self.fired && !f.once => {
                    return Poll::Ready(Err(io::Error::new(error_kind(f.err), "injected flush error")));
                }
                _ => {}
            }
        }
        if !self.drain_held() {
            self.blocked = Some("flush: the peer does not read because its replies are not being read");
            return Poll::Pending;
        }
        self.pump();
        self.flushes += 1;
        Poll::Ready(Ok(()))
    }

    fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.tick();
        if self.rpos < self.rbuf.len() {
            return Poll::Ready(Ok(()));
        }
        self.pump();
        if let Some(f) = self.fault {
            let at = self.delivered >= f.at;
            match f.kind {
                FaultKind::ReadErr if (at && !self.fired) || (self.fired && !f.once) => {
                    self.fired = true;
                    return Poll::Ready(Err(io::Error::new(error_kind(f.err), "injected read error")));
                }
                FaultKind::Eof if at => {
                    self.fired = true;
                    self.rbuf.clear();
                    self.rpos = 0;
                    self.eof();
                    return Poll::Ready(Ok(()));
                }
                _ => {}
            }
        }
        if self.s2c.is_empty() {
            self.rbuf.clear();
            self.rpos = 0;
            if self.server.closed {
                self.eof();
                return Poll::Ready(Ok(()));
            }
            self.blocked = Some("read: the server has nothing to say");
            return Poll::Pending;
        }
        let mut n = plan(&self.net.rchunks, &mut self.ri);
        if n == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(f) = self.fault {
            if matches!(f.kind, FaultKind::ReadErr | FaultKind::Eof) && !self.fired {
                n = n.min((f.at - self.delivered) as usize);
            }
        }
        n = n.min(self.s2c.len());
        self.rbuf.clear();
        self.rpos = 0;
        self.rbuf.extend(self.s2c.drain(..n));
        self.delivered += n as u64;
        Poll::Ready(Ok(()))
    }

    fn eof(&mut self) {
        self.eofs += 1;
        if self.eofs > 2000 {
            panic!("LIVELOCK: end of stream was read {} times", self.eofs);
        }
    }

    fn consume(&mut self, n: usize) {
        assert!(self.rpos + n <= self.rbuf.len(), "the library consumed more than it was given");
        self.rpos += n;
        self.consumed += n as u64;
    }
}

/// The stream given to the library. A copy of the read buffer lives here because `fill_buf` must return a borrow.
pub struct Stream {
    pub link: Rc<RefCell<Link>>,
    view: Vec<u8>,
}

impl Stream {
    pub fn new(link: &Rc<RefCell<Link>>) -> Stream {
        Stream { link: link.clone(), view: vec![] }
    }
    fn poll_fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let mut l = self.link.borrow_mut();
        match l.fill(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => {
                self.view.clear();
                self.view.extend_from_slice(&l.rbuf[l.rpos..]);
                drop(l);
                Poll::Ready(Ok(&self.view))
            }
        }
    }
    fn take(&mut self, n: usize) {
        self.link.borrow_mut().consume(n);
    }
}

#[cfg(feature = "tokio-rt")]
mod imp {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

    impl AsyncRead for Stream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let this = self.get_mut();
            let n = match this.poll_fill(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => {
                    let n = v.len().min(buf.remaining());
                    buf.put_slice(&v[..n]);
                    n
                }
            };
            this.take(n);
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for Stream {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().poll_fill(cx)
        }
        fn consume(self: Pin<&mut Self>, amt: usize) {
            self.get_mut().take(amt)
        }
    }
    impl AsyncWrite for Stream {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.link.borrow_mut().do_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.link.borrow_mut().do_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.link.borrow_mut().do_flush(cx)
        }
    }
    impl AsyncRead for Src {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let want = buf.remaining();
            match self.get_mut().step(cx, want) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => {
                    buf.put_slice(&v);
                    Poll::Ready(Ok(()))
                }
            }
        }
    }
}

#[cfg(feature = "async-std-rt")]
mod imp {
    use super::*;
    use futures::io::{AsyncBufRead, AsyncRead, AsyncWrite};

    impl AsyncRead for Stream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let this = self.get_mut();
            let n = match this.poll_fill(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => {
                    let n = v.len().min(buf.len());
                    buf[..n].copy_from_slice(&v[..n]);
                    n
                }
            };
            this.take(n);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncBufRead for Stream {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().poll_fill(cx)
        }
        fn consume(self: Pin<&mut Self>, amt: usize) {
            self.get_mut().take(amt)
        }
    }
    impl AsyncWrite for Stream {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.link.borrow_mut().do_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.link.borrow_mut().do_flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.link.borrow_mut().do_flush(cx)
        }
    }
    impl AsyncRead for Src {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            match self.get_mut().step(cx, buf.len()) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => {
                    buf[..v.len()].copy_from_slice(&v);
                    Poll::Ready(Ok(v.len()))
                }
            }
        }
    }
}

/// A message source with planned chunking, readiness and failure.
pub struct Src {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<u16>,
    i: usize,
    fail: Option<SrcFail>,
    failed: bool,
    ends: u32,
}

impl Src {
    pub fn new(data: Vec<u8>, chunks: &[u16], fail: Option<SrcFail>) -> Src {
        Src { data, pos: 0, chunks: chunks.to_vec(), i: 0, fail, failed: false, ends: 0 }
    }
    fn step(&mut self, cx: &mut Context<'_>, want: usize) -> Poll<io::Result<Vec<u8>>> {
        if want == 0 {
            return Poll::Ready(Ok(vec![]));
        }
        let c = plan(&self.chunks, &mut self.i);
        if c == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(f) = self.fail {
            if self.pos >= f.at as usize && !(self.failed && f.once) {
                self.failed = true;
                return Poll::Ready(Err(io::Error::new(error_kind(f.kind), "injected source failure")));
            }
        }
        let lim = self.fail.map_or(usize::MAX, |f| f.at as usize).min(self.data.len());
        let n = c.min(want).min(lim - self.pos);
        if n == 0 {
            self.ends += 1;
            if self.ends > 2000 {
                panic!("LIVELOCK: end of the message source was read {} times", self.ends);
            }
        }
        let v = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Poll::Ready(Ok(v))
    }
}
