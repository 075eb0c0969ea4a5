//! In-memory connections between simulated clients and the real HTTP server.

use super::sched::{sim, sleep, Role};
use super::simfs::mix;
use s3_server::SharedS3Service;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub struct ConnState {
    pub id: usize,
    c2s: VecDeque<u8>,
    c2s_fin: bool,
    rst: bool,
    rd_waker: Option<Waker>,
    wr_waker: Option<Waker>,
    s2c: VecDeque<u8>,
    s2c_fin: bool,
    client_waker: Option<Waker>,
    window: usize,
    max_read: usize,
    max_write: usize,
    pub server_gone: bool,
    key: u64,
    ctr: u64,
    last_arrival: u64,
    pub up: u64,
    pub down: u64,
}

impl ConnState {
    /// no further request can be answered on this connection
    pub fn closed(&self) -> bool {
        self.server_gone || self.s2c_fin || self.rst
    }
}

pub type Conn = Rc<RefCell<ConnState>>;

pub struct MockIo(Conn);

impl AsyncRead for MockIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let _k = super::mem::kernel();
        let mut c = self.0.borrow_mut();
        if c.rst {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if c.c2s.is_empty() {
            if c.c2s_fin {
                return Poll::Ready(Ok(()));
            }
            c.rd_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = c.c2s.len().min(buf.remaining()).min(c.max_read);
        let (a, b) = c.c2s.as_slices();
        let m = n.min(a.len());
        buf.put_slice(&a[..m]);
        buf.put_slice(&b[..n - m]);
        c.c2s.drain(..n);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for MockIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _k = super::mem::kernel();
        let mut c = self.0.borrow_mut();
        if c.rst || sim().dead {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = c.window.saturating_sub(c.s2c.len());
        if room == 0 {
            c.wr_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(room).min(c.max_write);
        c.s2c.extend(&buf[..n]);
        c.down += n as u64;
        let w = c.client_waker.take();
        drop(c);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut c = self.0.borrow_mut();
        if !sim().dead {
            c.s2c_fin = true;
        }
        if let Some(w) = c.client_waker.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl Drop for MockIo {
    fn drop(&mut self) {
        let mut c = self.0.borrow_mut();
        c.server_gone = true;
        if let Some(w) = c.client_waker.take() {
            w.wake();
        }
    }
}

/// how the client's bytes are cut into segments and when they arrive
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Seg {
    /// upper bound of a segment's size; 0 = one segment
    pub max: u32,
    /// upper bound of the delay between segments (us)
    pub delay: u32,
    pub seed: u64,
    /// explicit cut positions (byte offsets), used by boundary-seeking plans
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cuts: Vec<u32>,
}

impl Default for Seg {
    fn default() -> Self {
        Seg {
            max: 0,
            delay: 0,
            seed: 0,
            cuts: vec![],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetCfg {
    pub window: u32,
    pub max_read: u32,
    pub max_write: u32,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            window: 65536,
            max_read: 65536,
            max_write: 65536,
        }
    }
}

/// open a connection: a coroutine runs the real hyper connection on it
pub fn connect(svc: &SharedS3Service, cfg: &NetCfg) -> Conn {
    let s = sim();
    let id = s.threads.len();
    let conn: Conn = Rc::new(RefCell::new(ConnState {
        id,
        c2s: VecDeque::new(),
        c2s_fin: false,
        rst: false,
        rd_waker: None,
        wr_waker: None,
        s2c: VecDeque::new(),
        s2c_fin: false,
        client_waker: None,
        window: cfg.window.max(1) as usize,
        max_read: cfg.max_read.max(1) as usize,
        max_write: cfg.max_write.max(1) as usize,
        server_gone: false,
        key: mix(s.seed ^ (id as u64) << 7),
        ctr: 0,
        last_arrival: 0,
        up: 0,
        down: 0,
    }));
    let io = MockIo(conn.clone());
    let svc = svc.clone();
    let name = format!("conn{id}");
    let c2 = conn.clone();
    s.spawn_task(&name, Role::Conn, async move {
        let mut http = hyper::server::conn::Http::new();
        http.http1_only(true);
        let r = http.serve_connection(io, svc).await;
        if let Err(e) = r {
            sim().note(|| format!("connection error: {e}"));
        }
        c2.borrow_mut().server_gone = true;
    });
    conn
}

fn wake_server(c: &mut ConnState) -> Option<Waker> {
    c.rd_waker.take()
}

/// hand bytes to the network; they arrive in order, cut and delayed as asked
pub fn send(conn: &Conn, data: &[u8], seg: &Seg) {
    let mut pos = 0usize;
    let mut off = 0u64;
    {
        let mut c = conn.borrow_mut();
        c.up += data.len() as u64;
    }
    let mut cuts: Vec<usize> = seg.cuts.iter().map(|c| *c as usize).filter(|c| *c > 0 && *c < data.len()).collect();
    cuts.sort_unstable();
    cuts.dedup();
    while pos < data.len() {
        let (n, d) = {
            let mut c = conn.borrow_mut();
            c.ctr += 1;
            let h = mix(c.key ^ seg.seed.wrapping_mul(31) ^ c.ctr << 20);
            let left = data.len() - pos;
            let mut n = if seg.max == 0 {
                left
            } else {
                (1 + (h % u64::from(seg.max)) as usize).min(left)
            };
            if let Some(k) = cuts.iter().find(|k| **k > pos) {
                n = n.min(*k - pos);
            }
            let d = if seg.delay == 0 { 0 } else { (h >> 32) % u64::from(seg.delay) };
            (n, d)
        };
        off += d;
        let chunk = data[pos..pos + n].to_vec();
        pos += n;
        let at = {
            let mut c = conn.borrow_mut();
            let at = (sim().now + off).max(c.last_arrival);
            c.last_arrival = at;
            at
        };
        let c2 = conn.clone();
        sim().at(at, move || {
            let w = {
                let mut c = c2.borrow_mut();
                c.c2s.extend(chunk);
                wake_server(&mut c)
            };
            if let Some(w) = w {
                w.wake();
            }
        });
    }
}

/// half-close after everything sent so far has arrived
pub fn fin(conn: &Conn) {
    fin_later(conn, 0);
}

/// the client ends its side some time after the last byte
pub fn fin_later(conn: &Conn, us: u64) {
    let at = conn.borrow().last_arrival.max(sim().now) + us;
    let c2 = conn.clone();
    sim().at(at, move || {
        let w = {
            let mut c = c2.borrow_mut();
            c.c2s_fin = true;
            wake_server(&mut c)
        };
        if let Some(w) = w {
            w.wake();
        }
    });
}

/// reset; `after_delivery` lets the bytes already sent arrive first
pub fn reset(conn: &Conn, after_delivery: bool) {
    let at = if after_delivery {
        conn.borrow().last_arrival.max(sim().now)
    } else {
        sim().now
    };
    let c2 = conn.clone();
    sim().at(at, move || {
        let (a, b) = {
            let mut c = c2.borrow_mut();
            c.rst = true;
            (c.rd_waker.take(), c.wr_waker.take())
        };
        if let Some(w) = a {
            w.wake();
        }
        if let Some(w) = b {
            w.wake();
        }
    });
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ReadMode {
    /// bytes taken per read; 0 = all available
    pub chunk: u32,
    /// pause between reads (us)
    pub pause: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum NetErr {
    /// the connection ended before a complete response; what had arrived
    Closed(Vec<u8>),
    /// bytes on the wire are not a valid HTTP response
    Malformed(String),
    Refused,
}

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// body delimited by Content-Length / chunked / close / none
    pub framing: &'static str,
}

impl Resp {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
}

pub struct ClientConn {
    pub conn: Conn,
    pub buf: Vec<u8>,
    pub mode: ReadMode,
}

impl ClientConn {
    pub fn new(conn: Conn) -> Self {
        ClientConn {
            conn,
            buf: vec![],
            mode: ReadMode::default(),
        }
    }

    /// true when no more bytes can come
    async fn fill(&mut self) -> bool {
        if self.mode.pause > 0 {
            sleep(u64::from(self.mode.pause)).await;
        }
        let conn = self.conn.clone();
        let lim = if self.mode.chunk == 0 { usize::MAX } else { self.mode.chunk as usize };
        let mut got: Vec<u8> = vec![];
        let eof = poll_fn(|cx| {
            let mut c = conn.borrow_mut();
            if !c.s2c.is_empty() {
                let n = c.s2c.len().min(lim);
                let (a, b) = c.s2c.as_slices();
                let m = n.min(a.len());
                got.extend_from_slice(&a[..m]);
                got.extend_from_slice(&b[..n - m]);
                c.s2c.drain(..n);
                let w = c.wr_waker.take();
                drop(c);
                if let Some(w) = w {
                    w.wake();
                }
                return Poll::Ready(false);
            }
            if c.s2c_fin || c.server_gone || c.rst {
                return Poll::Ready(true);
            }
            c.client_waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await;
        self.buf.extend(got);
        eof
    }

    /// read one response (interim 100 responses are skipped)
    pub async fn response(&mut self, head_request: bool) -> Result<Resp, NetErr> {
        loop {
            let r = self.response1(head_request).await?;
            if r.status != 100 {
                return Ok(r);
            }
        }
    }

    async fn response1(&mut self, head_request: bool) -> Result<Resp, NetErr> {
        let (mut resp, hlen) = loop {
            match parse_head(&self.buf) {
                Ok(Some(x)) => break x,
                Ok(None) => {}
                Err(e) => return Err(NetErr::Malformed(e)),
            }
            if self.fill().await {
                return Err(NetErr::Closed(std::mem::take(&mut self.buf)));
            }
        };
        self.buf.drain(..hlen);
        // what arrived of an answer that was cut off in its body
        let cut = |status: u16, body: &[u8]| NetErr::Closed([format!("HTTP/1.1 {status} ").as_bytes(), body].concat());
        let te = resp.header("transfer-encoding").map(str::to_ascii_lowercase);
        let cls: Vec<String> = resp
            .headers
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .map(|(_, v)| v.clone())
            .collect();
        if cls.iter().any(|c| *c != cls[0]) {
            return Err(NetErr::Malformed("conflicting content-length".into()));
        }
        if head_request || resp.status == 204 || resp.status == 304 || resp.status < 200 {
            resp.framing = "none";
            return Ok(resp);
        }
        if te.as_deref() == Some("chunked") {
            resp.framing = "chunked";
            loop {
                let line = loop {
                    if let Some(i) = find(&self.buf, b"\r\n") {
                        let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                        break l;
                    }
                    if self.fill().await {
                        return Err(cut(resp.status, &resp.body));
                    }
                };
                let t = String::from_utf8_lossy(&line[..line.len() - 2]).into_owned();
                let n = usize::from_str_radix(t.split(';').next().unwrap_or("").trim(), 16)
                    .map_err(|_| NetErr::Malformed(format!("bad chunk size {t:?}")))?;
                while self.buf.len() < n + 2 {
                    if self.fill().await {
                        resp.body.extend(self.buf.drain(..));
                        return Err(cut(resp.status, &resp.body));
                    }
                }
                let d: Vec<u8> = self.buf.drain(..n).collect();
                let crlf: Vec<u8> = self.buf.drain(..2).collect();
                if crlf != b"\r\n" {
                    return Err(NetErr::Malformed("missing CRLF after chunk".into()));
                }
                if n == 0 {
                    return Ok(resp);
                }
                resp.body.extend(d);
            }
        }
        if let Some(cl) = cls.first() {
            resp.framing = "length";
            let n: usize = cl.parse().map_err(|_| NetErr::Malformed(format!("content-length {cl:?}")))?;
            while self.buf.len() < n {
                if self.fill().await {
                    return Err(cut(resp.status, &std::mem::take(&mut self.buf)));
                }
            }
            resp.body = self.buf.drain(..n).collect();
            return Ok(resp);
        }
        resp.framing = "close";
        while !self.fill().await {}
        resp.body = std::mem::take(&mut self.buf);
        Ok(resp)
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    let p = unsafe { libc::memmem(h.as_ptr().cast(), h.len(), n.as_ptr().cast(), n.len()) };
    (!p.is_null()).then(|| p as usize - h.as_ptr() as usize)
}

fn parse_head(buf: &[u8]) -> Result<Option<(Resp, usize)>, String> {
    let mut hs = [httparse::EMPTY_HEADER; 64];
    let mut r = httparse::Response::new(&mut hs);
    match r.parse(buf) {
        Ok(httparse::Status::Partial) => Ok(None),
        Ok(httparse::Status::Complete(n)) => {
            let mut resp = Resp {
                status: r.code.unwrap_or(0),
                ..Resp::default()
            };
            for h in r.headers.iter() {
                resp.headers.push((
                    h.name.to_ascii_lowercase(),
                    String::from_utf8(h.value.to_vec()).unwrap_or_else(|_| h.value.iter().map(|b| *b as char).collect()),
                ));
            }
            Ok(Some((resp, n)))
        }
        Err(e) => Err(format!("{e:?} in {:?}", String::from_utf8_lossy(&buf[..buf.len().min(80)]))),
    }
}
