//! A scripted SMTP server behind an in-memory stream.
#![allow(dead_code)]
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Write(Vec<u8>),
    Flush,
    Read(usize),
}

pub struct Inner {
    /// what the server has received (flushed) and not yet answered
    pub seen: Vec<u8>,
    /// written but not flushed
    pub unflushed: Vec<u8>,
    /// everything written
    pub out: Vec<u8>,
    /// lines the server received (commands and continuation lines), without CRLF
    pub lines: Vec<String>,
    /// messages the server received, as sent on the wire, without the end of data
    pub mails: Vec<Vec<u8>>,
    /// bytes for the client
    pub input: Vec<u8>,
    pub pos: usize,
    pub data: bool,
    pub log: Vec<Ev>,
    /// fail the n-th write / read / flush (counted from 0)
    pub fail_write: Option<usize>,
    pub fail_read: Option<usize>,
    pub fail_flush: Option<usize>,
    pub writes: usize,
    pub reads: usize,
    pub flushes: usize,
    /// at most this many bytes per write
    pub max_write: usize,
    /// at most this many bytes are visible per fill_buf
    pub max_read: usize,
    pub answer: Box<dyn FnMut(&str) -> String + Send>,
}

#[derive(Clone)]
pub struct Mock(pub Arc<Mutex<Inner>>);

impl std::fmt::Debug for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mock")
    }
}

impl Mock {
    /// `answer` maps every command line to the reply; "." stands for a complete message
    pub fn new(greeting: &str, answer: impl FnMut(&str) -> String + Send + 'static) -> Mock {
        Mock(Arc::new(Mutex::new(Inner {
            seen: vec![],
            unflushed: vec![],
            out: vec![],
            lines: vec![],
            mails: vec![],
            input: greeting.as_bytes().to_vec(),
            pos: 0,
            data: false,
            log: vec![],
            fail_write: None,
            fail_read: None,
            fail_flush: None,
            writes: 0,
            reads: 0,
            flushes: 0,
            max_write: usize::MAX,
            max_read: usize::MAX,
            answer: Box::new(answer),
        })))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
    pub fn lines(&self) -> Vec<String> {
        self.with(|i| i.lines.clone())
    }
    pub fn mails(&self) -> Vec<Vec<u8>> {
        self.with(|i| i.mails.clone())
    }
    pub fn unread(&self) -> String {
        self.with(|i| String::from_utf8_lossy(&i.input[i.pos..]).to_string())
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

impl Inner {
    fn serve(&mut self) {
        loop {
            if self.data {
                let end = if self.seen.starts_with(b".\r\n") {
                    Some((0, 3))
                } else {
                    find(&self.seen, b"\r\n.\r\n").map(|p| (p + 2, p + 5))
                };
                let Some((a, b)) = end else { return };
                self.mails.push(self.seen[..a].to_vec());
                self.seen.drain(..b);
                self.data = false;
                let r = (self.answer)(".");
                self.input.extend_from_slice(r.as_bytes());
            } else {
                let Some(p) = find(&self.seen, b"\r\n") else { return };
                let line = String::from_utf8_lossy(&self.seen[..p]).to_string();
                self.seen.drain(..p + 2);
                let r = (self.answer)(&line);
                if line.eq_ignore_ascii_case("DATA") && r.starts_with('3') {
                    self.data = true;
                }
                self.lines.push(line);
                self.input.extend_from_slice(r.as_bytes());
            }
        }
    }
}

impl AsyncWrite for Mock {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut i = self.0.lock().unwrap();
        let n = i.writes;
        i.writes += 1;
        if i.fail_write == Some(n) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "write failed")));
        }
        let k = buf.len().min(i.max_write);
        i.out.extend_from_slice(&buf[..k]);
        i.unflushed.extend_from_slice(&buf[..k]);
        i.log.push(Ev::Write(buf[..k].to_vec()));
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        let n = i.flushes;
        i.flushes += 1;
        if i.fail_flush == Some(n) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "flush failed")));
        }
        let b = std::mem::take(&mut i.unflushed);
        i.seen.extend_from_slice(&b);
        i.log.push(Ev::Flush);
        i.serve();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.lock().unwrap();
        let k = (i.input.len() - i.pos).min(buf.remaining()).min(i.max_read);
        buf.put_slice(&i.input[i.pos..i.pos + k]);
        i.pos += k;
        Poll::Ready(Ok(()))
    }
}

impl AsyncBufRead for Mock {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        // SAFETY-free trick: leak a copy (tests only)
        let mut i = self.0.lock().unwrap();
        let n = i.reads;
        i.reads += 1;
        if i.fail_read == Some(n) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "read failed")));
        }
        let k = (i.input.len() - i.pos).min(i.max_read);
        i.log.push(Ev::Read(k));
        let v: Vec<u8> = i.input[i.pos..i.pos + k].to_vec();
        Poll::Ready(Ok(Box::leak(v.into_boxed_slice())))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.0.lock().unwrap().pos += amt;
    }
}

/// Runs a future that never has to wait for anything outside; None if it hangs.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100_000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
    }
    None
}

/// What a server makes of a message received on the wire (RFC 5321, 4.5.2).
pub fn unstuff(wire: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut start = true;
    let mut i = 0;
    while i < wire.len() {
        if start && wire[i] == b'.' {
            i += 1;
            start = false;
            continue;
        }
        start = wire[i] == b'\n' && i > 0 && wire[i - 1] == b'\r';
        out.push(wire[i]);
        i += 1;
    }
    out
}
